--------------------------------- MODULE MCGo ---------------------------------
(***************************************************************************)
(* Go values by type.  Every type built from the base types with pointer,  *)
(* slice, map, struct, list of anything and map of anything, up to DEPTH    *)
(* constructors, stored as a new document, as root over every kind of       *)
(* value, under new and existing keys and at new and existing positions;    *)
(* and every destination type filled from documents of every kind.          *)
(* The driver makes the values; SALT chooses them.                          *)
(***************************************************************************)
EXTENDS Script

VARIABLES t,      \* a type
          kind,   \* "set" or "get"
          on
vars == <<t, kind, on>>
B(x) == [c |-> "base", ty |-> x]
Names == <<"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "bool", "string",
           "time", "bytes", "enc", "inner", "penc", "doc", "docv", "reg", "un", "dinner",
           "myint", "myu8", "mystr", "mybool", "myf32", "myf64">>
Bases == {B(x) : x \in {"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64",
                        "bool", "string", "time", "bytes", "enc", "inner"}}
Named == {B(x) : x \in {"myint", "myu8", "mystr", "mybool", "myf32", "myf64"}}   \* types of the user's own
SetBases == Bases \cup Named \cup {B("penc"), B("doc"), B("docv")}
C(x, e) == [c |-> x, e |-> e]
(* a pointer to a custom encoder or to a document is a case of its own *)
CanPtr(e) == ~(e.c = "base" /\ e.ty \in {"penc", "doc", "docv"})
Over(S) == {C("ptr", e) : e \in {x \in S : CanPtr(x)}} \cup {C(x, e) : x \in {"slice", "map", "struct", "ilist", "imap"}, e \in S}
           \cup {C("array", e) : e \in {x \in S : x # B("uint8")}} \cup {C("piface", e) : e \in S}
(* []uint8 is bytes; a slice of documents by value is not a way to pass documents *)
RECURSIVE Fine(_)
Fine(x) == CASE x.c = "base" -> TRUE
             [] x.c = "ptr" -> CanPtr(x.e) /\ Fine(x.e)
             [] OTHER -> Fine(x.e)
Set1 == {x \in Over(SetBases) : Fine(x)}
Set2 == {x \in Over(Set1) : Fine(x)}
SetTypes == SetBases \cup Set1 \cup (IF Depth >= 2 THEN Set2 ELSE {})

GetLeaves == {B(x) : x \in {"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64",
                            "bool", "string", "time", "bytes", "reg", "un", "dinner"}}
GetField == GetLeaves
(* elements that a slice destination can have *)
Get1 == {C("slice", e) : e \in GetLeaves} \cup {C("struct", e) : e \in GetField}
Get2 == {C("slice", e) : e \in Get1} \cup {C("struct", e) : e \in {x \in Get1 : TRUE}}
GetTypes == (GetLeaves \ {B("reg"), B("un")}) \cup Get1 \cup (IF Depth >= 2 THEN Get2 ELSE {})

M(k, v) == [k |-> k, v |-> v]
I(n) == IntD(I64Of(n))
KA == <<65>>
Ka == <<97>>
KBb == <<66, 98>>
Kbb == <<98, 98>>
KC == <<67>>
(* documents a destination is filled from *)
Scalars == <<I(-129), Dbl(ScaledF64(5, 1)), Str(<<52, 50>>), Str(<<97, 34, 10>>), Flt(<<63, 192, 0, 0>>), Const("true"), Const("null"), Const("false"),
             Dt(ScaledF64(45000 * 1024 + 512, 10)), Bin(<<1, 2, 255>>), Ext(3, <<9>>), Const("nan"), I(65537), Str(YTrue),
             Str(<<50, 48, 50, 49, 45, 48, 51, 45, 48, 53, 32, 49, 50, 58, 48, 48, 58, 48, 48>>)>>
Lists(s) == <<Arr(<<>>), Arr(<<s[1]>>), Arr(<<s[2], s[3], s[Len(s)]>>), Arr(s)>>
Objs(s) == <<Obj(<<>>), Obj(<<M(KA, s[1]), M(<<122>>, I(1)), M(KBb, I(7))>>), Obj(<<M(Ka, s[2]), M(Kbb, Str(<<56>>)), M(KC, s[3])>>),
             Obj(<<M(KA, s[Len(s)]), M(Ka, s[1])>>)>>
InnerDocs == <<Obj(<<M(<<88>>, I(5)), M(<<115>>, Str(<<120>>)), M(<<70>>, I(2)), M(<<66, 111>>, Const("true"))>>), Obj(<<M(<<83>>, I(1))>>), I(3)>>
RECURSIVE DocsFor(_)
DocsFor(x) == CASE x.c = "base" /\ x.ty = "dinner" -> InnerDocs
                [] x.c = "base" -> Scalars \o <<Arr(<<I(1), I(300)>>), Obj(<<M(KA, I(1))>>)>>
                [] x.c = "slice" -> Lists(DocsFor(x.e)) \o <<Bin(<<7>>), Ext(1, <<8, 9>>), I(1), Obj(<<M(KA, I(1))>>)>>
                [] OTHER -> Objs(DocsFor(x.e)) \o <<Arr(<<I(1)>>), Str(KA)>>

Init == /\ on = FALSE
        /\ \/ kind = "set" /\ t \in SetTypes
           \/ kind = "get" /\ t \in GetTypes
Next == ~on /\ on' = TRUE /\ UNCHANGED <<t, kind>>
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Full == Obj(<<M(Ka, Obj(<<M(Ka, I(1)), M(KBb, I(2))>>)), M(KBb, Arr(<<I(1), I(2), I(3), I(4)>>)), M(KA, Str(<<111>>)), M(KC, Dbl(DOne)),
              M(<<100>>, Dt(ScaledF64(45000 * 1024, 10))), M(<<101>>, Bin(<<1, 2, 3>>)), M(<<102>>, Ext(4, <<1>>)), M(<<103>>, Const("true"))>>)
FullArr == Arr([i \in 1..Len(Full.kv) |-> Full.kv[i].v])
Roots == <<Obj(<<M(Ka, I(1))>>), Arr(<<I(1), I(2), I(3), I(4)>>), I(5), Str(<<120>>), Bin(<<1, 2, 3, 4, 5, 6>>), Dbl(DOne), Flt(<<63, 128, 0, 0>>)>>
(* a number for a type, to vary the values *)
RECURSIVE Code(_)
Code(x) == IF x.c = "base" THEN CHOOSE i \in 1..Len(Names) : Names[i] = x.ty
           ELSE (Code(x.e) * 7 + (CASE x.c = "ptr" -> 1 [] x.c = "slice" -> 2 [] x.c = "map" -> 3 [] x.c = "struct" -> 4 [] x.c = "ilist" -> 5 [] x.c = "array" -> 8 [] x.c = "piface" -> 9 [] OTHER -> 6)) % 100003
SSet(r, p, how, k, n, cached, seed) ==
  [op |-> "setgo", r |-> r, p |-> p, how |-> how, k |-> k, n |-> n, cached |-> cached, gt |-> t, seed |-> seed]
SetScript ==
  LET s == Code(t) * 31 + Salt * 1000
      root == Roots[(s % Len(Roots)) + 1]
      keys == <<KA, Ka, KBb, KC, <<100>>, <<101>>, <<102>>, <<103>>, <<110>>>>
  IN <<SSet(0, <<>>, "new", <<>>, 0, TRUE, s + 1), SSet(1, <<>>, "new", <<>>, 0, FALSE, s + 2), SDumps,
       SBuild(0, root, "build", s % 2 = 0), SSet(0, <<>>, "root", <<>>, 0, FALSE, s + 3),
       SBuild(0, Full, "msgpack", s % 2 = 1)>>
     \o [i \in 1..Len(keys) |-> SSet(0, <<>>, "key", keys[i], 0, FALSE, s + 10 + i)]
     \o <<SBuild(1, FullArr, "build", s % 3 = 0)>>
     \o [i \in 1..Len(FullArr.el) |-> SSet(1, <<>>, "index", <<>>, i - 1, FALSE, s + 20 + i)]
     \o <<SSet(1, <<>>, "index", <<>>, 99, FALSE, s + 30), SSet(1, <<>>, "index", <<>>, -1, FALSE, s + 31),
          SBuild(0, Obj(SubSeq(Full.kv, 1, 3)), "lazy", s % 2 = 1), SSet(0, <<SK(Ka)>>, "key", Ka, 0, FALSE, s + 32), SSet(0, <<SN(1)>>, "index", <<>>, 2, FALSE, s + 33),
          SDumps>>
GetScript ==
  LET s == Code(t) * 31 + Salt * 1000
      ds == DocsFor(t)
      top(d) == IF IsCont(d) THEN d ELSE Arr(<<d>>)
      get(d, n) == [op |-> "togo", r |-> 0, p |-> (IF IsCont(d) THEN <<>> ELSE <<SN(0)>>), icase |-> (n % 2 = 0), gt |-> t, seed |-> s + n]
  IN FlattenSeq([i \in 1..Len(ds) |->
        <<SBuild(0, top(ds[i]), IF (i + s) % 3 = 0 THEN "msgpack" ELSE "build", (i + s) % 2 = 0), get(ds[i], i), get(ds[i], i + 1), get(ds[i], i + 40)>>])
     \o <<SDumps>>
Show == (on /\ Picked(Code(t))) => Emit(IF kind = "set" THEN SetScript ELSE GetScript, FALSE)
Check == Show
=============================================================================
