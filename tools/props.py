import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe or ["public API results"],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
NOA="The repository's tests print results and contain no assertions; "
p("C01","A document is exactly the ordered tree its mutation history defines",
"After any sequence of mutations (setting keys or indexes to typed values or whole values, appending, inserting, removing, extracting, forcing a path, resetting, clearing) a document reads back as exactly the ordered tree those calls define: an object has one member per key, in first-insertion order, replaced in place; an array keeps positions, an index outside it appends, an insert shifts the rest. A setter that meets a value of another type retypes only that value, a removal removes only the addressed member, and nothing else in the document changes. Lookups by key, index, name or path find precisely the current member, or nothing.",
["histories","inputs"],"every finite sequence of mutation and lookup calls, any starting document (built by calls or decoded, cached or not), keys of any content",
NOA+"they run a few fixed call sequences; order, position and retyping errors only show after particular multi-step histories.",
["dxvalue.go","cache.go"],[("ordered key/value slice with linear lookup","dxvalue.go: VObject.indexByName, SetKeyCached, SetKeyValue"),("array growth and shifting","dxvalue.go: SetIndexCached, InsertValue, RemoveIndex"),("path creation","dxvalue.go: ForcePath")],
[("members","ordered members of an object / elements of an array","dxvalue.go: DxValue.fobject.strkvs, DxValue.farr")])
p("C02","Typed reads convert by one fixed rule and defaults appear only for absent values",
"Reading any value as integer, float, double, bool, string, date-time, Go time or duration gives the result fixed by the stored value and the requested type alone (numbers convert numerically, numeric and boolean text is parsed, unparsable text gives the zero result, dates convert both ways), whichever accessor family is used: direct, by name, by path or by index. The caller's default is returned exactly when the addressed value does not exist (for durations also when it is not convertible). A string read from JSON behaves as its unescaped text in every typed read.",
["inputs","histories"],"every value of every type, every accessor family, every default, existing and missing names/paths/indexes (time zone UTC)",
NOA+"type x accessor x content combinations are not enumerated anywhere.",
["dxvalue.go"],[("per-type conversion switches","dxvalue.go: Int, Bool, Double, Float, String, DateTime, GoTime, Duration"),("default fallback","dxvalue.go: *ByPath, *ByName, *ByIndex, As*")])
p("C03","Copies are complete and independent",
"A clone or copy of a document (Clone, CopyFrom, AddFrom of its members, conversion through SetValue) is structurally identical to its source, including binary content, extension types and nested containers, whatever mix of cached and uncached storage is used. Afterwards no mutation, clearing, reloading or freeing of one of them is ever visible in the other.",
["inputs","histories"],"every document, every later history of mutations on source and copy, every cached/uncached combination",
NOA+"no test mutates a source after copying it.",
["dxvalue.go","cache.go"],[("recursive clone","dxvalue.go: clone, Clone, CopyFrom, AddFrom")])
p("C04","Merging follows the chosen policy for every key and leaves the source intact",
"MergeWith of two objects yields the target's members in place and order followed by the source's new members, recursively: equal-named objects merge, equal-named arrays become the union in order, a scalar in the target meeting any value becomes the array [old,new], and a container meeting a different kind is kept. With a callback, every conflicting key is presented exactly once with its full slash-separated path and both values, and the answer decides it: replace takes the source value, custom leaves the target alone, normal applies the default. The source is never modified and shares nothing with the result.",
["inputs","histories"],"every pair of documents, every callback policy over the conflicting paths",
NOA+"TestDxValue_MergeWith merges one pair and checks nothing.",
["dxvalue.go"],[("recursive object merge with path building","dxvalue.go: mergeObject, MergeWith"),("array union by Equal","dxvalue.go: MergeWith, Equal")])
p("C05","Equality is structural and exact",
"Equal is true exactly when both documents have the same structure: same kinds, object keys in the same order, array elements in the same positions, identical string and binary contents; numbers of different numeric types compare by their value as double, and an escaped JSON string equals its unescaped text. It is reflexive (for values other than NaN), symmetric, insensitive to how either document was produced (built, decoded, cloned, cached), and has no effect on its operands.",
["inputs","histories"],"every pair of documents, however produced",
NOA+"Equal is exercised by no test.",
["dxvalue.go"],[("structural comparison","dxvalue.go: Equal")])
p("C06","Decoding JSON yields exactly the document the text denotes",
"Decoding any valid JSON text gives the document it denotes: members in text order under their unescaped keys, strings unescaped per RFC 8259 (including \\u escapes and surrogate pairs), integers within 64 bits exact, other numbers as the nearest double, literals as such, with any insignificant white space. The result does not depend on the cache or share options, on the decoding entry point, or on what was decoded before.",
["inputs","configurations"],"every valid JSON text with distinct keys per object and not using the /Date()/ notation, every option combination and entry point",
NOA+"a handful of texts are decoded and printed.",
["jsonparse.go","json_escape.go","dxvalue.go"],[("recursive descent","jsonparse.go: parseJsonValue, parseJsonObj, parseJsonArray, parseJsonString, parseJsonNum"),("decode into an existing value","jsonparse.go: parseJson2Value"),("lazy unescaping","dxvalue.go: UnEscapestrs, String")])
p("C07","JSON output is valid and denotes the document",
"Encoding any document, compact or formatted, with the ASCII-only or the standard escape style, produces a valid JSON text that denotes the document: same structure, order, keys, strings and numeric values, dates as their text or /Date(ms)/ form, binaries and not-a-numbers as their fixed textual stand-ins. Decoding that text gives the same document back for everything JSON can express. The no-escape style does the same for documents whose keys and strings need no escaping, and the escape-all style never emits a non-ASCII byte for strings set by the program.",
["inputs","configurations"],"every document, every style/format/date option, documents built by calls or decoded from any format",
NOA+"outputs are only printed.",
["jsonparse.go","json_escape.go"],[("compact writer","jsonparse.go: Value2Json"),("formatted writer","jsonparse.go: formatValue"),("escaping","json_escape.go: escapeJsonStr")])
p("C08","Malformed JSON is always reported as an error, never a panic or a partial result",
"Decoding a text that is not structurally valid JSON (truncated anywhere, unbalanced or misplaced brackets, commas, colons or quotes, bad literals or numbers, trailing data) returns an error whose message can be printed and no document. It never panics, loops or returns a partial document, and it leaves the library and any target value usable: the next decode gives the right result.",
["inputs","fault_sequences"],"every byte string, every truncation and single-byte corruption of valid texts, any sequence of failing and succeeding decodes",
NOA+"no malformed text is ever decoded.",
["jsonparse.go","dxvalue.go"],[("structural error returns","jsonparse.go: parseJson*"),("error value","jsonparse.go: ErrorParseJson.Error"),("failed load cleanup","dxvalue.go: LoadFromJson, loadResult")])
p("C09","MsgPack output is the standard encoding of the document",
"Encoding any document to MsgPack appends exactly one complete value in the standard format with the shortest header for every integer, string, binary, extension, array and map, dates as timestamp extensions, JSON-decoded strings and keys as their unescaped text, at every size. Decoding it gives the same document back.",
["inputs"],"every document, including every size class boundary (fixed, 8, 16, 32 bit) of every kind and every integer",
NOA+"one small document is encoded.",
["msgpackparse.go","msgpack_value.go","msgpack_codes.go"],[("encoder","msgpackparse.go: Value2MsgPack"),("headers","msgpack_value.go: write*Code, writeInt")])
p("C10","Every valid MsgPack encoding decodes to its value; damaged ones give an error",
"Decoding any valid MsgPack value with string map keys, in any of the permitted (also non-minimal) encodings, gives the value it denotes, with both options and through both entry points. Input that is truncated at any point or starts with an unassigned code returns an error and no document; no input panics.",
["inputs","fault_sequences"],"every encoding form of every value, every truncation point, arbitrary bytes",
NOA+"only the library's own output for one document is decoded.",
["msgpackparse.go","msgpack_value.go"],[("decoder","msgpackparse.go: parseMsgPackValue, parseMsgPack2Value"),("header lengths","msgpack_value.go: parseLen, parseExtLen, parseMapLen, parseArrLen")])
p("C11","BSON output is a well-formed document that reads back unchanged",
"Encoding an object or array to BSON appends exactly one well-formed document of the standard layout with exact lengths: the narrowest of int32/int64 per integer, doubles bit-exact, UTF-8 strings, generic binary, object ids, decimals, timestamps, dates in milliseconds, nested documents and arrays with sequential keys. Decoding it gives the same document back with floats as doubles.",
["inputs"],"every object or array document with NUL-free keys and without MsgPack-only extension values",
NOA+"one document is round-tripped without comparison.",
["bson_parse.go","bson_code.go"],[("encoder","bson_parse.go: writeObjBsonValue, writeArrayBsonValue, writeSimpleBsonValue, writeBsonElementType")])
p("C12","Every valid BSON document of supported types decodes; damaged ones give an error",
"Decoding a well-formed BSON document of supported element types gives the document it denotes, empty containers and all integer signs included, with both options and through both entry points. Input that is truncated anywhere, carries an inconsistent length, misses a terminator or uses an unsupported element type returns an error and no document; no input panics.",
["inputs","fault_sequences"],"every document of supported types, every truncation and length corruption, arbitrary bytes",
NOA+"only the library's own output is decoded.",
["bson_parse.go"],[("decoder","bson_parse.go: parseBsonDocument, parseBsonArray, parseValue, parseBsonDocLen")])
p("C13","Block-style YAML decodes to the tree its indentation denotes",
"Decoding block-style YAML (mappings, sequences and their nesting with deeper-indented children, mapping entries starting on the dash line, plain scalars, comments, blank lines, anchors, aliases and merge keys) yields the tree the indentation denotes: numbers, booleans and text typed accordingly, members in order, an alias as a copy of the anchored value and a merge key adding the anchored members that are not already present.",
["inputs"],"every tree of block mappings and sequences under every consistent choice of indentation widths, blank lines, comments, final newline or not",
NOA+"three fixed texts are decoded and printed.",
["yamlparse.go"],[("indentation stack","yamlparse.go: parseLine, parseObject, parseArray, popLast"),("anchors","yamlparse.go: parseStringValue, mergeObject")])
p("C14","Decoders terminate on any bytes and one decode never influences the next",
"Decoding any byte string as JSON, MsgPack, BSON or YAML returns a document or an error without panicking or running on, and every decode gives the same result as it would as the first call in a fresh process, whatever was decoded, failed, freed or recycled before.",
["inputs","histories"],"arbitrary bytes (nesting below 1000), every order of decodes of all formats, succeeding or failing",
NOA+"no arbitrary input and no sequence of decodes is tried.",
["yamlparse.go","jsonparse.go","msgpackparse.go","bson_parse.go","cache.go"],[("pooled YAML parser reset","yamlparse.go: newyamParser, freeyamlParser, reset"),("pooled caches","cache.go: getCache, FreeValue")])
p("C15","Recycled storage never leaks between documents, even concurrently",
"With cached documents, freeing or clearing a document and reusing its storage never shows old content in a new document and never changes any other live document (members extracted from a cached document belong to it). This holds for every history of creating, decoding, cloning, mutating, clearing and freeing documents, and when many goroutines do so at once on their own documents, without data races.",
["histories","schedules"],"every interleaving of goroutines working on distinct documents over the shared pool, every create/mutate/clear/free history",
NOA+"FreeValue is called once; nothing reuses a recycled cache or runs concurrently.",
["cache.go","dxvalue.go"],[("slab of values per document","cache.go: ValueCache.getValue, Reset"),("shared pool","cache.go: ValueCachePool, getCache, FreeValue")],
[("pool","recycled slabs","cache.go: ValueCachePool"),("slab","values handed out to one document","cache.go: ValueCache.Value")])
p("C16","Shared constants can never be changed",
"The values for true, false, null, NaN and infinity that documents share are immutable: no call on such a value, or on a document or copy containing it, ever changes what another document holding that constant reads. Setting or retyping such a member replaces it in that document only.",
["histories","inputs"],"every mutating call applied to every constant obtained in every way (constructor, decoded member, clone, list element)",
NOA+"no test writes through a constant.",
["dxvalue.go","reflect_parse.go"],[("read-only guard","dxvalue.go: ReadOnly and its callers"),("replacement on write","dxvalue.go: SetKeyCached, SetIndexCached, ForcePath")])
p("C17","Loading into an existing value equals a fresh decode",
"Loading JSON, MsgPack, BSON or YAML into an existing value of any previous type and content leaves it equal to the document a fresh decode of the same input gives, with nothing of the old content left. A failed load returns the error, keeps no partial content, and the value can be loaded and mutated again; loading into a shared constant is refused.",
["inputs","histories"],"every previous content x every input of the four formats x cached or not, repeated loads",
NOA+"TestDxValue_LoadFromJson loads one text into one fresh value.",
["dxvalue.go","jsonparse.go","msgpackparse.go","bson_parse.go","yamlparse.go"],[("load entry points","dxvalue.go: LoadFromJson, LoadFromMsgPack, LoadFromBson, LoadFromYaml, Clear"),("in-place decoders","jsonparse.go: parseJson2Value; msgpackparse.go: parseMsgPack2Value")])
p("C18","No aliasing unless sharing was requested; output is append-only",
"Without the share option a decoded document never changes when the input buffer is overwritten, and binary set with copying never changes with the caller's slice. Decoders and encoders never modify the caller's input bytes; encoders leave the bytes already in the destination untouched and append exactly what they produce for an empty destination.",
["inputs","configurations"],"every document and input of every format, every prefix in the destination, with and without spare capacity",
NOA+"buffers are never reused in tests.",
["jsonparse.go","msgpackparse.go","bson_parse.go","bin_value.go","yamlparse.go"],[("copy unless sharing","parseJsonString, parseMsgPackValue, parseBsonDocument, SetBinary"),("append style encoders","Value2Json, Value2MsgPack, writeObjBsonValue")])
p("C19","Go values become the documents they denote",
"Setting a value from a Go value (integers of all widths, floats, bool, string, time, bytes, nil, maps with string keys, slices, structs and pointers to them, nested in any way, values with a custom encoder) gives the document with the same structure and contents, nil as null, whether set as root, under a key or at an index, cached or not. Later changes to the Go value do not change the document.",
["inputs"],"every nesting of the supported Go types and values (unsigned values up to the signed maximum, exported fields)",
NOA+"one struct and one map are converted and printed.",
["reflect_parse.go"],[("type switch and reflection","reflect_parse.go: SetValue, SetKeyvalue, SetIndexvalue")])
p("C20","Documents convert to the Go values they denote",
"Converting a document to a Go value (numbers, bool, string, time, bytes, generic maps and slices, typed slices, structs by field name with or without ignoring case, registered converters) fills the destination with exactly the document's contents under the typed-read rules; names without a matching field, and fields without a member, are left alone. Converting a Go value to a document and back restores it.",
["inputs"],"every document and every supported destination shape",
NOA+"one struct is filled and printed.",
["reflect_parse.go","struct_type.go"],[("decoder","reflect_parse.go: ToStdValue, decode2reflectFromdxValue, decodeArray2reflect"),("registered converters","struct_type.go: RegisterTypeMapFunc")])
p("C21","Reading, comparing, copying and encoding never change a document",
"No sequence of reads, lookups, visits, comparisons, clones, conversions and encodings changes what any later call on the document returns (the raw/plain type tag of a JSON string aside), in particular for documents decoded from JSON whose strings and keys contain escapes: every reader and every encoder sees the same unescaped content in whatever order they are used.",
["histories"],"every order of read-only calls on documents of every origin",
NOA+"each test reads a document in one order only.",
["dxvalue.go","jsonparse.go","msgpackparse.go","bson_parse.go"],[("lazy unescaping with per-object flag","dxvalue.go: UnEscapestrs, keysUnescaped; String on raw strings")])
p("C22","A document carried through any chain of formats keeps its content",
"Encoding a document in one format, decoding it, and repeating with other formats in any order gives the same document as long as each format on the way can express it (JSON, MsgPack and BSON objects of strings, booleans, nulls, 64-bit integers, doubles, arrays and objects), including keys and strings with quotes, backslashes, control and non-ASCII characters.",
["inputs","histories"],"every such document, every chain of formats, cached or not",
NOA+"no test chains formats.",
["jsonparse.go","msgpackparse.go","bson_parse.go"],[("the six codec halves","Value2Json/parseJsonValue, Value2MsgPack/parseMsgPackValue, writeObjBsonValue/parseBsonDocument")])
p("C23","File round trips are lossless",
"Writing a document to a file and reading it back gives the same document, with or without byte order mark, compact or formatted, replacing whatever the file held; the file entry points for JSON, MsgPack and YAML decode exactly the file's content, and binary values saved to and loaded from files keep every byte. A file that cannot be opened is reported as an error.",
["inputs","configurations"],"every document/binary content, every previous file content, every option",
NOA+"no test writes a file.",
["iofiles.go","jsonparse.go","bin_value.go","msgpackparse.go","yamlparse.go"],[("read whole file","iofiles.go: ReadFile"),("write document","jsonparse.go: Value2File, NewValueFromJsonFile"),("binary files","bin_value.go: SaveBinaryToFile, SetBinaryFromFile")])
p("C24","Case-insensitive mode treats keys as equal up to case everywhere",
"With case-insensitive keys switched on, every lookup, set, remove, extract, path and merge finds the first member whose key equals the given one up to letter case and otherwise behaves as in exact mode; the stored spelling is the one first used. With it off, keys differing in case are distinct members.",
["configurations","histories"],"both settings, every history of keyed operations over keys in mixed case",
NOA+"the switch is never set in tests.",
["dxvalue.go"],[("IgnoreCase switch","dxvalue.go: IgnoreCase, VObject.indexByName, Remove, ExtractValue, ValueByName")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,S)
print(len(P),[ (x['id'],len(x['title'])) for x in P if len(x['title'])>80])
