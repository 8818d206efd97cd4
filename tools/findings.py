import json
F="""f28c2ac C15 a retyped or recycled scalar kept its old payload (SetKeyInt, Reset(VT_Double) reads garbage)
2cfec77 C03 clones lost binary content and ext types; AddFrom/CopyFrom shared bool nodes with the source
806e80b C05 Equal([1],[1,2]) panicked or was true; strings compared case-insensitively
a8c8cf2 C04 merge skipped keys, built wrong paths for nested callbacks and nested arrays
1ec16b5 C21 Visit/KeyNameByIndex/MsgPack output saw raw escapes of JSON-decoded keys
eaafad0 C02 Int/Bool/DateTime of a JSON-decoded string with escapes read the raw text
2c1c167 C02 Bool of a negative float32 was true
46cc313 C16 SetInt and others on the shared true/false/null modified the constant for every document
a224b3b C03 AddFrom duplicated keys already present
556269a C06 a JSON key containing \\\\ or \\" was cut at the wrong quote; printing a key error panicked
9858d9d C06 JSON numbers lost exponent/fraction/sign at certain positions; '1.2.3' accepted
78f231f C07 control characters, quotes and surrogates were escaped or unescaped wrongly
985d3d9 C07 binary, NaN and nil values produced invalid JSON
9ddebe1 C17 LoadFromJson into a value of another type kept the type; trailing data accepted
b9ba311 C10 truncated MsgPack panicked or was accepted; invalid codes gave nil,nil; load kept the old type
6ec8148 C09 extension headers and NaN/Inf/nil encodings did not match their content
5eb744d C12 BSON decoding panicked on truncation, empty documents and negative lengths
a210beb C11 float32/NaN/Inf members were dropped or mis-sized in BSON output
518f7b4 C14 YAML: endless loop without a final newline; blank lines; state of an earlier parse reused
5bfd9fc C13 an anchor on a nested mapping was lost unless it stood at the first level
2679ea6 C13 a sequence under the first key of a sequence entry went to the wrong parent
dd6879a C20 ToStdValue into slices filled a copy
aee3bc0 C19 unsigned struct fields panicked
1790ede C19 nil pointers and nil interfaces panicked or vanished
2bfb2b6 C19 times, byte slices and empty maps became the wrong kind
25369ec C20 decoding into slices used the key lookup, unexported fields panicked
7c069fe C23 SaveBinaryToFile opened the file read-only and wrote nothing
feeab16 C17 LoadFromYaml wrote into the shared constants and kept partial content
71a8f9d C15 values created without a cache owned a slab, so an extracted member was cleared with its old parent
d7440fb C21 SetKey(VT_String) on an unread JSON string emptied it, on a read one kept it
2d781f8 C13 a key after a nested block under the first key of a sequence entry was refused or misplaced
49fcfda C13 a bare dash before CRLF was refused
e0637ee C18 SetBinary(copy)/SetExtType wrote into bytes shared with the caller or neighbouring values
27163df C19 a *string was silently dropped
0679368 C15 FreeValue wrote into the shared true/false/null constants without synchronisation (data race)
d525222 C05 Equal called two extension binaries of the same type and content different
86c139b C19 SetKeyvalue/SetIndexvalue of a Go map, slice or struct kept old members of the container already stored there
ef04ee2 C19 custom encoders with pointer receivers were ignored inside maps, structs and slices
c9d9c51 C20 a custom decoder was called on the nil pointer of a new slice element or struct field
68cc433 C01 a nil value stored with SetKeyValue/SetIndexValue became a member that MergeWith, ToStdValue and later stores panic on
e60ee8a C11 a binary stored over a BSON object id or decimal kept the subtype: Value2Bson panicked, or cut it
94966dc C03 CopyFrom/AddFrom between overlapping parts of one document lost members, left nil ones or never ended (arr.AddFrom(arr))
74a1d19 C17 LoadFromYaml accepted a first line without key separator that NewValueFromYaml refuses
5986dbe C17 LoadFromYaml dropped the indentation of the first line: " a: 1\\n b: 2" loaded as {a:{b:2}}
a4eef5c C13 a YAML line indented less than the lines before it could drop everything parsed before
f0cb088 C13 a YAML comment after a bare dash ("- # c") was read as the value
e689d19 C24 after SetKey and a raw escaped name, IgnoreCase lookups, Remove and ExtractValue skipped an earlier member whose escaped name matches
507301c C19 SetValue, SetKeyvalue and SetIndexvalue panicked on nil pointers
9d71ae1 C19 named scalar types, pointers to pointers, *interface{} and fixed-size arrays were silently dropped
1c26f3e C04 MergeWith of a document with itself: replace turned every member into null, a scalar a became [a,[a]]"""
fx=[]
for l in F.split("\n"):
    c,p,w=l.split(" ",2)
    fx.append("fixed: property=%s %s %s"%(p,c,w))
json.dump({"findings":[],"fixed":fx},open("/verif/known_findings.json","w"),indent=1)
