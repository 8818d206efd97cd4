-------------------------------- MODULE MCJson --------------------------------
(***************************************************************************)
(* A JSON writer.  A text is built from leaves whose value is known, a      *)
(* shape, keys and white space; then it may be damaged: a token lost,       *)
(* doubled, replaced or swapped, or the text cut.  Laws: the reader of      *)
(* JsonText gives back the document the text was built from; losing,        *)
(* adding or changing one bracket always makes an error.                    *)
(***************************************************************************)
EXTENDS Script

VARIABLES leaf, shape, ws, dam, at, on
vars == <<leaf, shape, ws, dam, at, on>>

M(k, v) == [k |-> k, v |-> v]
(* texts between the quotes and what they denote *)
Strings == <<[x |-> <<>>, s |-> <<>>],
  [x |-> <<97>>, s |-> <<97>>],
  [x |-> <<104,101,108,108,111,32,119>>, s |-> <<104,101,108,108,111,32,119>>],
  [x |-> <<92,34>>, s |-> <<34>>],
  [x |-> <<92,92>>, s |-> <<92>>],
  [x |-> <<92,47>>, s |-> <<47>>],
  [x |-> <<47>>, s |-> <<47>>],
  [x |-> <<92,98,92,102,92,110,92,114,92,116>>, s |-> <<8,12,10,13,9>>],
  [x |-> <<92,117,48,48,48,48>>, s |-> <<0>>],
  [x |-> <<92,117,48,48,49,102>>, s |-> <<31>>],
  [x |-> <<127>>, s |-> <<127>>],
  [x |-> <<92,117,48,48,55,70>>, s |-> <<127>>],
  [x |-> <<92,117,48,48,56,48>>, s |-> <<194,128>>],
  [x |-> <<92,117,48,55,102,102>>, s |-> <<223,191>>],
  [x |-> <<92,117,48,56,48,48>>, s |-> <<224,160,128>>],
  [x |-> <<92,117,102,102,102,102>>, s |-> <<239,191,191>>],
  [x |-> <<92,117,68,55,70,70>>, s |-> <<237,159,191>>],
  [x |-> <<92,117,101,48,48,48>>, s |-> <<238,128,128>>],
  [x |-> <<92,117,100,56,48,48,92,117,100,99,48,48>>, s |-> <<240,144,128,128>>],
  [x |-> <<92,117,68,66,70,70,92,117,68,70,70,70>>, s |-> <<244,143,191,191>>],
  [x |-> <<195,169>>, s |-> <<195,169>>],
  [x |-> <<228,184,173,230,150,135>>, s |-> <<228,184,173,230,150,135>>],
  [x |-> <<240,159,152,128>>, s |-> <<240,159,152,128>>],
  [x |-> <<120,92,117,48,48,101,57,121,92,34,122>>, s |-> <<120,195,169,121,34,122>>],
  [x |-> <<92,92,117,48,48,101,57>>, s |-> <<92,117,48,48,101,57>>],
  [x |-> <<92,92,92,34>>, s |-> <<92,34>>],
  [x |-> <<116,97,105,108,92,92>>, s |-> <<116,97,105,108,92>>],
  [x |-> <<97,92,117,48,48,52,49,92,117,48,48,52,50,99>>, s |-> <<97,65,66,99>>],
  [x |-> <<123,92,34,125>>, s |-> <<123,34,125>>],
  [x |-> <<91,49,44,50,93>>, s |-> <<91,49,44,50,93>>],
  [x |-> <<110,117,108,108>>, s |-> <<110,117,108,108>>],
  [x |-> <<49,101,53>>, s |-> <<49,101,53>>],
  [x |-> <<68,97,116,101>>, s |-> <<68,97,116,101>>],
  [x |-> <<92,47,68,97,116,101,40,49,53,57,57,57,53,53,50,48,48,48,48,48,41,92,47>>, s |-> <<47,68,97,116,101,40,49,53,57,57,57,53,53,50,48,48,48,48,48,41,47>>],
  [x |-> <<115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115>>, s |-> <<115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115,115>>],
  [x |-> <<113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,92,110>>, s |-> <<113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,113,10>>],
  [x |-> <<92,117,100,56,51,100,92,117,100,101,48,48,32,116,97,105,108>>, s |-> <<240,159,152,128,32,116,97,105,108>>]>>
OddStrings == <<<<92,120>>,
  <<92,117,49,50>>,
  <<92,117,100,56,48,48>>,
  <<92,117,100,99,48,48,120>>,
  <<1>>,
  <<9>>,
  <<92,117,49,50,71,52>>,
  <<47,68,97,116,101,40,49,50,41,47>>,
  <<68,97,116,101,40,57,57>>,
  <<47,68,97,116,101,40,49,53,57,57,57,53,53,50,48,48,48,48,48,43,48,56,48,48,41,47>>,
  <<47,68,97,116,101,40,49,53,57,57,57,53,53,50,48,48,48,48,48,41>>,
  <<92>>>>
Dates == <<<<47,68,97,116,101,40,49,53,57,57,57,53,53,50,48,48,48,48,48,41,47>>,
  <<68,97,116,101,40,48,48,56,54,52,48,48,48,48,48,41>>,
  <<47,68,97,116,101,40,48,48,56,54,52,48,48,57,57,57,41,47>>,
  <<68,97,116,101,40,49,53,57,57,57,53,53,50,48,48,57,57,57,41>>,
  <<47,68,97,116,101,40,52,57,57,57,57,56,56,56,48,48,48,48,48,41,47>>>>
Numbers == <<<<48>>,
  <<45,48>>,
  <<49>>,
  <<45,49>>,
  <<55>>,
  <<49,48>>,
  <<50,53,53>>,
  <<50,49,52,55,52,56,51,54,52,55>>,
  <<45,50,49,52,55,52,56,51,54,52,56>>,
  <<52,50,57,52,57,54,55,50,57,53>>,
  <<57,48,48,55,49,57,57,50,53,52,55,52,48,57,57,51>>,
  <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>,
  <<45,57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>,
  <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>,
  <<45,57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,57>>,
  <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>,
  <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,54>>,
  <<49,50,51,52,53,54,55,56,57,48,49,50,51,52,53,54,55,56,57,48,49,50,51,52,53,54,55,56,57,48>>,
  <<48,46,48>>,
  <<45,48,46,48>>,
  <<48,46,49>>,
  <<49,46,53>>,
  <<45,50,46,50,53>>,
  <<51,46,49,52,49,53,57,50,54,53,51,53,56,57,55,57,51>>,
  <<49,101,48>>,
  <<49,101,50>>,
  <<49,69,43,50>>,
  <<49,101,45,50>>,
  <<45,49,46,53,69,45,51>>,
  <<48,101,48>>,
  <<48,101,53>>,
  <<49,101,50,50>>,
  <<49,101,50,51>>,
  <<49,50,51,101,45,50,48>>,
  <<53,101,45,51,50,52>>,
  <<50,46,50,50,53,48,55,51,56,53,56,53,48,55,50,48,49,49,101,45,51,48,56>>,
  <<49,46,55,57,55,54,57,51,49,51,52,56,54,50,51,49,53,55,101,51,48,56>>,
  <<49,46,55,57,55,54,57,51,49,51,52,56,54,50,51,49,53,55,101,43,51,48,56>>,
  <<49,101,52,48,48>>,
  <<49,101,45,52,48,48>>,
  <<48,46,49,101,49>>,
  <<49,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48>>,
  <<49,46,48>>,
  <<49,50,51,52,53,46,54,55,56,101,51>>,
  <<57,48,48,55,49,57,57,50,53,52,55,52,48,57,57,50,46,53>>,
  <<48,46,51,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,52>>,
  <<49,50,51,52,53,54,55,56,57,48,46,48,49,50,51,52,53,54,55,56,57,48,49,50,51,52,53>>,
  <<49,101,53>>,
  <<49,48,101,45,49>>>>
OddNumbers == <<<<48,49>>,
  <<49,46>>,
  <<46,53>>,
  <<43,49>>,
  <<49,101>>,
  <<49,101,43>>,
  <<45>>,
  <<48,48>>,
  <<49,46,50,46,51>>,
  <<49,45,50>>,
  <<48,120,49>>,
  <<49,101,49,46,53>>,
  <<45,45,49>>,
  <<110,97,110>>,
  <<78,97,78>>,
  <<45,105,110,102>>,
  <<73,110,102,105,110,105,116,121>>>>
Quoted(s) == <<34>> \o s \o <<34>>
(* leaves: text, document, whether the document is known *)
Leaf(x, d, k) == [x |-> x, d |-> d, k |-> k]
Leaves ==
  [i \in 1..Len(Strings) |-> Leaf(Quoted(Strings[i].x), Str(Strings[i].s), TRUE)]
  \o [i \in 1..Len(Dates) |-> Leaf(Quoted(Dates[i]), JDate(Dates[i]), TRUE)]
  \o [i \in 1..Len(Numbers) |-> LET r == NumValue(Numbers[i]) IN Leaf(Numbers[i], r.d, ~r.odd)]
  \o <<Leaf(LitNull, Const("null"), TRUE), Leaf(LitTrue, Const("true"), TRUE), Leaf(LitFalse, Const("false"), TRUE),
       Leaf(<<91, 93>>, Arr(<<>>), TRUE), Leaf(<<123, 125>>, Obj(<<>>), TRUE)>>
  \o [i \in 1..Len(OddStrings) |-> Leaf(Quoted(OddStrings[i]), Const("null"), FALSE)]
  \o [i \in 1..Len(OddNumbers) |-> Leaf(OddNumbers[i], Const("null"), FALSE)]
NL == Len(Leaves)
Key(i) == Strings[((i - 1) % Len(Strings)) + 1]
At3(i, k) == ((i * 17 + k * 29 + Salt) % NL) + 1

(* a built value: tokens, document, all leaves known *)
B(t, d, k) == [t |-> t, d |-> d, k |-> k]
L(i) == B(<<Leaves[i].x>>, Leaves[i].d, Leaves[i].k)
Sep(parts, i) == IF i = 1 THEN parts[i].t ELSE <<<<44>>>> \o parts[i].t
ArrB(ps) == B(<<<<91>>>> \o FlattenSeq([i \in 1..Len(ps) |-> Sep(ps, i)]) \o <<<<93>>>>, Arr([i \in 1..Len(ps) |-> ps[i].d]), \A i \in 1..Len(ps) : ps[i].k)
MemT(ks, ps, i) == (IF i = 1 THEN <<>> ELSE <<<<44>>>>) \o <<Quoted(ks[i].x), <<58>>>> \o ps[i].t
ObjB(ks, ps) == B(<<<<123>>>> \o FlattenSeq([i \in 1..Len(ps) |-> MemT(ks, ps, i)]) \o <<<<125>>>>, Obj([i \in 1..Len(ps) |-> M(ks[i].s, ps[i].d)]), \A i \in 1..Len(ps) : ps[i].k)
(* two keys whose values differ *)
K1 == Key(leaf + ws)
K2 == CHOOSE q \in {Key(leaf + ws + 3), Key(leaf + ws + 4), Key(leaf + ws + 5), Key(leaf + ws + 6)} : q.s # K1.s
a == L(leaf)
b == L(At3(leaf, shape + ws))
c == L(At3(leaf, shape + ws + 5))
Shapes == 9
Built ==
  CASE shape = 1 -> a
    [] shape = 2 -> ArrB(<<a>>)
    [] shape = 3 -> ObjB(<<K1>>, <<a>>)
    [] shape = 4 -> ArrB(<<b, a, c>>)
    [] shape = 5 -> ObjB(<<K1, K2>>, <<b, a>>)
    [] shape = 6 -> ArrB(<<ArrB(<<a>>), ObjB(<<K1>>, <<b>>), ArrB(<<>>)>>)
    [] shape = 7 -> ObjB(<<K1, K2>>, <<ObjB(<<K2>>, <<a>>), ArrB(<<ObjB(<<K1, K2>>, <<c, b>>)>>)>>)
    [] shape = 8 -> ArrB(<<ArrB(<<ArrB(<<ArrB(<<a>>), b>>)>>), c>>)
    [] OTHER -> ObjB(<<K1>>, <<ObjB(<<K1>>, <<ObjB(<<K1>>, <<ObjB(<<K1, K2>>, <<a, ArrB(<<b>>)>>)>>)>>)>>)
(* white space: none, one blank everywhere, or one odd run before one token *)
Gap(i) == CASE ws = 0 -> <<>> [] ws = 1 -> <<32>> [] ws = 2 -> IF i % 3 = (leaf + Salt) % 3 THEN <<10, 9>> ELSE <<>> [] OTHER -> IF i % 2 = leaf % 2 THEN <<13, 10, 32>> ELSE <<>>
Text(ts) == FlattenSeq([i \in 1..Len(ts) |-> Gap(i) \o ts[i]]) \o Gap(Len(ts) + 1)

T == Built.t
Bracket(t) == t \in {<<91>>, <<93>>, <<123>>, <<125>>}
Repl == <<<<44>>, <<58>>, <<123>>, <<125>>, <<91>>, <<93>>, <<34>>, <<49>>, <<34, 120, 34>>>>
Damaged ==
  CASE dam = 1 -> Text(SubSeq(T, 1, at - 1) \o SubSeq(T, at + 1, Len(T)))                       \* lost
    [] dam = 2 -> Text(SubSeq(T, 1, at) \o SubSeq(T, at, Len(T)))                               \* doubled
    [] dam = 3 -> Text(SubSeq(T, 1, at - 1) \o <<T[at + 1], T[at]>> \o SubSeq(T, at + 2, Len(T))) \* swapped
    [] dam = 4 -> Take(Text(T), at)                                                             \* cut
    [] dam > 10 /\ dam <= 19 -> Text(SubSeq(T, 1, at - 1) \o <<Repl[dam - 10]>> \o SubSeq(T, at + 1, Len(T)))
    [] dam > 20 -> Text(SubSeq(T, 1, at - 1) \o <<Repl[dam - 20]>> \o SubSeq(T, at, Len(T)))
Dams == {0, 1, 2, 3, 4} \cup 11..19 \cup 21..29
In == IF dam = 0 THEN Text(T) ELSE Damaged
Init == /\ leaf \in 1..NL /\ shape \in 1..Shapes /\ ws \in 0..3 /\ on = FALSE /\ dam \in Dams
        /\ (dam # 0 => (leaf * 7 + shape * 3 + ws * 5 + dam + Salt) % 61 = 0)
        /\ Keep(leaf * 3 + shape, ws * 40 + dam)
        /\ at \in CASE dam = 0 -> {0} [] dam = 3 -> 1..(Len(T) - 1) [] dam = 4 -> 0..(Len(Text(T)) - 1) [] dam > 20 -> 1..(Len(T) + 1) [] OTHER -> 1..Len(T)
Next == ~on /\ on' = TRUE /\ UNCHANGED <<leaf, shape, ws, dam, at>>
Spec == Init /\ [][Next]_vars

Law ==
  LET r == JsonClass(In) IN
  CASE dam = 0 -> Built.k => (r.c = "doc" /\ r.d = Built.d)
    [] dam = 1 -> (Bracket(T[at]) /\ Len(T) > 1 /\ Built.k) => r.c = "err"
    [] dam = 2 -> (Bracket(T[at]) /\ Built.k) => r.c = "err"
    [] dam \in 11..14 -> (Bracket(T[at]) /\ T[at] # Repl[dam - 10] /\ Built.k) => r.c = "err"
    [] dam \in 23..26 -> Built.k => r.c = "err"
    [] dam = 4 -> (shape > 1 /\ Built.k /\ \E i \in (at + 1)..Len(Text(T)) : ~IsWs(Text(T)[i])) => r.c = "err"
    [] OTHER -> TRUE
n == leaf * 97 + shape * 31 + ws * 7 + dam * 3 + at
Script ==
  LET x == n + Salt IN
  <<SDec(0, "json", In, "new", x % 2 = 0) @@ [share |-> x % 5 = 0], [op |-> "new", r |-> 1, kd |-> <<"obj", "arr", "str", "int", "dbl", "obj">>[(x % 6) + 1], cached |-> x % 3 = 0],
    SDec(1, "json", In, IF x % 4 = 0 THEN "unmarshal" ELSE "load", FALSE) @@ [share |-> x % 4 # 0 /\ x % 7 = 0], SEnc(0, <<>>, "json", <<"all", "ansi", "none">>[(x % 3) + 1], 2), SDumps>>
Check == on => Law /\ (Picked(n) => Emit(Script, FALSE))
=============================================================================
