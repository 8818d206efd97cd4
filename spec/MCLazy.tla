-------------------------------- MODULE MCLazy --------------------------------
(***************************************************************************)
(* The JSON decoder leaves escaped member names and texts as they came and  *)
(* decodes them when somebody looks.  A document given as text with escapes *)
(* is decoded into register 0 (and again into 2, and its value is built     *)
(* into 1), then every pair of observers and mutators meets it, reaching    *)
(* members through names, positions and walks in every order, and at the    *)
(* end everything is dumped.  Laws: observers change nothing; a member is   *)
(* found by its decoded name and by nothing else.                           *)
(***************************************************************************)
EXTENDS Script

VARIABLES doc, acts, reg, ic
vars == <<doc, acts, reg, ic>>

A == <<97>>
One == IntD(I64Of(1))
(* {"a\n":"x\u0041","b":{"\"q":["\\","p"]},"c":"12"} *)
Texts == <<
  <<123,34,97,92,110,34,58,34,120,92,117,48,48,52,49,34,44,34,98,34,58,123,34,92,34,113,34,58,91,34,92,92,34,44,34,112,34,93,125,44,34,99,34,58,34,49,50,34,125>>,
  \* {"\\\\":1,"\\":"\t"} : the first raw name is twice the second, and the second raw name is what the first means
  <<123,34,92,92,92,92,34,58,49,44,34,92,92,34,58,34,92,116,34,125>>,
  \* {"\\":"\/","\\\\":{"k":"\u00e9"}}
  <<123,34,92,92,34,58,34,92,47,34,44,34,92,92,92,92,34,58,123,34,107,34,58,34,92,117,48,48,101,57,34,125,125>>,
  \* ["\t",{"k\/":"v"},"\ud83d\ude00","true"]
  <<91,34,92,116,34,44,123,34,107,92,47,34,58,34,118,34,125,44,34,92,117,100,56,51,100,92,117,100,101,48,48,34,44,34,116,114,117,101,34,93>>,
  \* "\"r\\"
  <<34,92,34,114,92,92,34>>,
  \* {"":"","\"":{},"e":[],"\u0031":"\u0031\u0032"}
  <<123,34,34,58,34,34,44,34,92,34,34,58,123,125,44,34,101,34,58,91,93,44,34,92,117,48,48,51,49,34,58,34,92,117,48,48,51,49,92,117,48,48,51,50,34,125>>,
  \* {"d":{"x\"":{"y\\":"z\\\\"}},"n":[["\b"]]}
  <<123,34,100,34,58,123,34,120,92,34,34,58,123,34,121,92,92,34,58,34,122,92,92,92,92,34,125,125,44,34,110,34,58,91,91,34,92,98,34,93,93,125>>,
  \* {"t":"\u0074rue","A\u0042":"\u0041b"}
  <<123,34,116,34,58,34,92,117,48,48,55,52,114,117,101,34,44,34,65,92,117,48,48,52,50,34,58,34,92,117,48,48,52,49,98,34,125>> >>
Docs == [i \in 1..Len(Texts) |-> JsonClass(Texts[i]).d]
Doc == Docs[doc]

(* every path to a node, and the names worth asking for at it: the decoded ones, the raw ones, and others *)
Q34 == <<34>>
Names == {<<97,10>>, <<97,92,110>>, <<98>>, <<34,113>>, <<92,34,113>>, <<99>>, <<92>>, <<92,92>>, <<92,92,92,92>>, <<107,47>>, <<107,92,47>>, <<>>, Q34, <<49>>,
          <<100>>, <<120,34>>, <<116>>, <<65,66>>, <<97,98>>, <<107>>}
NameSeq == SetToSeq(Names)
Paths(d) == IF d.t = "obj" THEN <<<<>>>> \o FlattenSeq([i \in 1..Len(d.kv) |-> <<<<SK(d.kv[i].k)>>, <<SN(i - 1)>>>>])
            ELSE IF d.t = "arr" THEN <<<<>>>> \o [i \in 1..Len(d.el) |-> <<SN(i - 1)>>] ELSE <<<<>>>>
RECURSIVE DeepKeys(_)
DeepKeys(d) == IF d.t = "obj" /\ d.kv # <<>> THEN <<d.kv[1].k>> \o DeepKeys(d.kv[1].v)
               ELSE IF d.t = "arr" /\ d.el # <<>> THEN <<<<48>>>> \o DeepKeys(d.el[1]) ELSE <<>>
SHas(r, p, k) == SLook(r, p, "has", k, 0, <<>>)
(* observers: nothing changes *)
ObserveOf(dn) ==
  LET D == Docs[dn]
      ps == Paths(D) IN
  FlattenSeq([i \in 1..Len(NameSeq) |-> IF ByName(D, NameSeq[i], FALSE).ok \/ i % 4 = dn % 4 THEN <<<<SHas(0, <<>>, NameSeq[i])>>>> ELSE <<>>])
  \o FlattenSeq([i \in 1..Len(ps) |-> <<<<SLook(0, ps[i], "visit", <<>>, i, <<>>)>>, <<SLook(0, ps[i], "keyname", <<>>, i % 3, <<>>)>>, <<SRead(0, ps[i], "direct", "string", <<>>, 0, <<>>)>>>>])
  \o <<<<SLook(0, <<>>, "count", <<>>, 0, <<>>)>>, <<SLook(0, <<>>, "items", <<>>, 1, <<>>)>>, <<SLook(0, <<>>, "byindex", <<>>, 0, <<>>)>>, <<SLook(0, <<>>, "visit", <<>>, 0, <<>>)>>,
       <<SLook(0, <<>>, "bypath", <<>>, 0, DeepKeys(D))>>, <<SRead(0, <<>>, "path", "string", <<>>, 0, DeepKeys(D))>>,
       <<SRead(0, <<>>, "name", "int", <<99>>, 0, <<>>)>>, <<SRead(0, <<>>, "name", "bool", <<116>>, 0, <<>>)>>, <<SRead(0, <<>>, "name", "string", <<92>>, 0, <<>>)>>, <<SRead(0, <<>>, "index", "string", <<>>, 1, <<>>)>>,
       <<SEnc(0, <<>>, "json", "none", 3)>>, <<SEnc(0, <<>>, "json", "all", 3)>>, <<[SEnc(0, <<>>, "json", "ansi", 3) EXCEPT !.fmtd = TRUE]>>, <<[SEnc(0, <<>>, "json", "none", 3) EXCEPT !.fmtd = TRUE]>>,
       <<SEnc(0, <<>>, "msgpack", "none", 3)>>, <<SEnc(0, <<>>, "bson", "none", 3)>>,
       <<SEq(0, <<>>, 1, <<>>)>>, <<SEq(1, <<>>, 0, <<>>)>>, <<SEq(0, <<>>, 2, <<>>)>>, <<SEq(0, <<>>, 0, <<>>)>>,
       <<SClone(0, <<>>, 4, FALSE)>>, <<SClone(0, <<>>, 4, TRUE)>>, <<SDump(0, "visit")>>, <<SDump(0, "name")>>, <<SDump(0, "clone")>>, <<SDump(0, "index")>>,
       <<[op |-> "togo", r |-> 0, p |-> <<>>, seed |-> 5, icase |-> FALSE]>>,
       <<SBuild(5, Obj(<<[k |-> Q34, v |-> One]>>), "build", FALSE), SMerge(5, <<>>, 0, <<>>, [cb |-> FALSE, dflt |-> "normal", rules |-> <<>>])>>>>
Table == [i \in 1..Len(Texts) |-> ObserveOf(i)]
Observe == Table[doc]
NObs == Len(Observe)
(* changes to register 0, by what they do to the root of its document *)
Keys2 == <<<<97,10>>, <<92>>, <<92,92>>, Q34, <<107,47>>, <<65,66>>, <<100>>>>
Change ==
  FlattenSeq([i \in 1..Len(Keys2) |-> <<[f |-> "RemoveKey", k |-> Keys2[i]], [f |-> "SetKeyInt", k |-> Keys2[i], i |-> I64Of(9)], [f |-> "SetKeyString", k |-> Keys2[i], s |-> <<92, 110>>],
                                     [f |-> "ForcePath", ks |-> <<Keys2[i], <<34, 92>>>>, kd |-> "int"]>>])
  \o FlattenSeq([i \in 1..2 |-> LET x == <<0, 3>>[i] IN
        <<[f |-> "SetIndexString", n |-> x, s |-> <<34, 92>>], [f |-> "SetIndexInt", n |-> x, i |-> I64Of(3)], [f |-> "SetIndexBool", n |-> x, bv |-> i = 1],
          [f |-> "SetIndexConst", n |-> x, kd |-> "null"], [f |-> "SetIndexDouble", n |-> x, d |-> ScaledF64(3, 1)], [f |-> "SetIndexFloat", n |-> x, fl |-> <<64, 32, 0, 0>>],
          [f |-> "SetIndex", n |-> x, kd |-> "arr"], [f |-> "SetIndex", n |-> x, kd |-> "str"], [f |-> "SetIndex", n |-> x, kd |-> "false"], [f |-> "SetIndex", n |-> x, kd |-> "bin"], [f |-> "SetIndex", n |-> x, kd |-> "inf"],
          [f |-> "RemoveIndex", n |-> x], [f |-> "Insert", n |-> x, kd |-> "int"]>>])
  \o FlattenSeq([i \in 1..3 |-> LET x == <<<<97,10>>, <<116>>, <<49>>>>[i] IN
        <<[f |-> "SetKeyBool", k |-> x, bv |-> i = 2], [f |-> "SetKeyConst", k |-> x, kd |-> "nan"], [f |-> "SetKeyBin", k |-> x, b |-> <<1, 2>>], [f |-> "SetKeyExt", k |-> x, x |-> 3, b |-> <<7>>],
          [f |-> "SetKeyDouble", k |-> x, d |-> ScaledF64(3, 1)], [f |-> "SetKey", k |-> x, kd |-> "str"], [f |-> "SetKey", k |-> x, kd |-> "obj"], [f |-> "SetKeyCached", k |-> x, kd |-> "true"], [f |-> "SetKeyNil", k |-> x]>>])
  \o <<[f |-> "Append", kd |-> "str"], [f |-> "SetString", s |-> <<92, 117>>], [f |-> "SetInt", i |-> I64Of(-1)], [f |-> "SetBool", bv |-> FALSE], [f |-> "SetDouble", d |-> ScaledF64(5, 1)], [f |-> "SetBinary", b |-> <<1>>],
       [f |-> "Clear"], [f |-> "Reset", kd |-> "obj"], [f |-> "Reset", kd |-> "str"]>>
NChg == Len(Change)
NAct == NObs + NChg
IsObs(a) == a <= NObs

(* the document is decoded without looking at it *)
SLazy(r, entry, share, cached) == [op |-> "dec", r |-> r, fmt |-> "json", in |-> Texts[doc], entry |-> entry, share |-> share, cached |-> cached, nodump |-> TRUE]
Init == /\ doc \in 1..Len(Texts) /\ ic \in BOOLEAN /\ acts = <<>> /\ reg = Doc
Act(a) ==
  /\ acts' = Append(acts, a)
  /\ reg' = (IF IsObs(a) THEN reg ELSE Mut(Change[a - NObs], reg, ic))
  /\ UNCHANGED <<doc, ic>>
StepsOf(a) == IF IsObs(a) THEN Observe[a] ELSE <<SMut(0, <<>>, Change[a - NObs])>>
Next == Len(acts) < Depth /\ \E a \in 1..NAct : (IF acts = <<>> THEN TRUE ELSE IsObs(acts[Len(acts)]) \/ IsObs(a) \/ (a + acts[1]) % 3 = 0) = TRUE
                                              /\ Keep(doc * 7 + Len(acts) * 31 + (IF acts = <<>> THEN 0 ELSE acts[Len(acts)]) + (IF ic THEN 17 ELSE 0), a) /\ Act(a)
Spec == Init /\ [][Next]_vars
RECURSIVE Hash(_, _)
Hash(s, h) == IF s = <<>> THEN h ELSE Hash(Tail(s), (h * 61 + Head(s)) % 100003)
n == Hash(acts, doc * 2 + IF ic THEN 1 ELSE 0)

----------------------------------------------------------------------------
(* a member is found by its decoded name and by nothing else *)
Found == (acts = <<>> /\ ~ic /\ Doc.t = "obj") =>
  /\ \A i \in 1..Len(Doc.kv) : ByName(Doc, Doc.kv[i].k, FALSE) = Some(Doc.kv[i].v)
  /\ \A k \in Names : ByName(Doc, k, FALSE).ok = (\E i \in 1..Len(Doc.kv) : Doc.kv[i].k = k)
(* what is written is read back whatever the style *)
Back == acts = <<>> => JsonClass(Texts[doc]).c = "doc"
Still == (\A i \in 1..Len(acts) : IsObs(acts[i])) => reg = Doc
Start == (IF n % 4 = 3 THEN <<[op |-> "new", r |-> 0, kd |-> "obj", cached |-> n % 2 = 0]>> ELSE <<>>) \o <<SLazy(0, IF n % 4 = 3 THEN "load" ELSE "new", n % 3 = 0, n % 2 = 0), SBuild(1, Doc, "build", n % 5 = 0), SLazy(2, "new", n % 3 = 1, n % 2 = 1)>>
Show == (Len(acts) = Depth /\ Picked(n)) =>
  Emit(Start \o FlattenSeq([i \in 1..Len(acts) |-> StepsOf(acts[i])]) \o <<SDump(0, <<"items", "visit", "index", "name", "clone">>[((n \div 7) % 5) + 1]), SEq(0, <<>>, 2, <<>>), SEnc(0, <<>>, "json", "all", 3), SDumps>>, ic)
Check == Found /\ Back /\ Still /\ Show
=============================================================================
