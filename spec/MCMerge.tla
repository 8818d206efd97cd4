-------------------------------- MODULE MCMerge --------------------------------
(***************************************************************************)
(* Merging every pair of documents from a small universe under every policy *)
(* of a small set, with the laws of C04, replayed into the library.         *)
(***************************************************************************)
EXTENDS Script

VARIABLES a, b, pol, ic, did
vars == <<a, b, pol, ic, did>>

Ka == <<97>>
Kb == <<98>>
KA == <<65>>
M(k, v) == [k |-> k, v |-> v]
I(n) == IntD(I64Of(n))
Leaves == {I(1), I(2), Str(<<120>>), Const("true"), Const("null")}
Arrs == {Arr(<<>>), Arr(<<I(1)>>), Arr(<<I(1), I(2), I(1)>>), Arr(<<Str(<<120>>), I(2)>>), Arr(<<Obj(<<M(Ka, I(1))>>), Arr(<<I(1)>>)>>),
         Arr(<<Arr(<<I(1)>>), Obj(<<M(Ka, I(2))>>), Const("null")>>), Arr(<<Dbl(ScaledF64(1, 0)), I(3)>>)}
Inner == {Obj(<<>>), Obj(<<M(Ka, I(1))>>), Obj(<<M(Kb, I(2)), M(Ka, Str(<<120>>))>>), Obj(<<M(KA, I(3))>>), Obj(<<M(Ka, Arr(<<I(1)>>))>>)}
Vals == Leaves \cup Arrs \cup Inner \cup {Obj(<<M(Ka, Obj(<<M(Ka, I(1)), M(Kb, I(1))>>))>>), Obj(<<M(Ka, Obj(<<M(Kb, Arr(<<I(2)>>))>>))>>)}
Tops == Arrs \cup {Obj(<<>>)} \cup {Obj(<<M(k, v)>>) : k \in {Ka, KA}, v \in Vals} \cup {Obj(<<M(Kb, I(0)), M(Ka, v)>>) : v \in Vals}
        \cup {Obj(<<M(Ka, v), M(Kb, w)>>) : v \in {I(1), Arr(<<I(1)>>), Obj(<<M(Ka, I(1))>>)}, w \in {Str(<<120>>), Arr(<<I(2)>>), Obj(<<M(Kb, I(2))>>)}}
TopSeq == SetToSeq(Tops)
Rules == {<<>>, <<[path |-> Ka, op |-> "replace"]>>, <<[path |-> <<97, 47, 97>>, op |-> "custom"], [path |-> Kb, op |-> "replace"]>>,
          <<[path |-> <<97, 47, 97, 47, 98>>, op |-> "replace"]>>}
Pols == {[cb |-> FALSE, dflt |-> "normal", rules |-> <<>>]}
        \cup {[cb |-> TRUE, dflt |-> d, rules |-> r] : d \in {"normal", "replace", "custom"}, r \in Rules}
PolSeq == SetToSeq(Pols)

Init == /\ a \in 1..Len(TopSeq) /\ b \in 1..Len(TopSeq) /\ pol \in 1..Len(PolSeq) /\ ic \in BOOLEAN /\ did = <<>>
        /\ Keep(a * 7 + b * 3, pol * 2 + IF ic THEN 1 ELSE 0)
D == TopSeq[a]
S == TopSeq[b]
P == PolSeq[pol]
Next == did = <<>> /\ did' = <<Merge(D, S, P, ic)>> /\ UNCHANGED <<a, b, pol, ic>>
Spec == Init /\ [][Next]_vars
R == did[1].d
(* the keys of both, those of the destination first and in their order *)
KeysLaw == (D.t = "obj" /\ S.t = "obj") =>
  /\ Len(R.kv) >= Len(D.kv) /\ \A i \in 1..Len(D.kv) : R.kv[i].k = D.kv[i].k
  /\ \A i \in 1..Len(S.kv) : KeyIdx(R.kv, S.kv[i].k, ic) > 0
  /\ Len(R.kv) <= Len(D.kv) + Len(S.kv)
  /\ \A i \in 1..Len(S.kv) : KeyIdx(D.kv, S.kv[i].k, ic) = 0 => R.kv[KeyIdx(R.kv, S.kv[i].k, ic)].v = S.kv[i].v
  /\ \A i \in 1..Len(D.kv) : KeyIdx(S.kv, D.kv[i].k, ic) = 0 => R.kv[i] = D.kv[i]
ArrLaw == (D.t = "arr" /\ S.t = "arr") =>
  /\ Take(R.el, Len(D.el)) = D.el
  /\ \A i \in 1..Len(S.el) : \E j \in 1..Len(R.el) : EqDoc(R.el[j], S.el[i])
  /\ ArrUnion(R, S) = R
EmptyLaw == (S = Obj(<<>>) \/ S = Arr(<<>>) \/ D.t # S.t => R = D) /\ (D = Obj(<<>>) /\ S.t = "obj" => R = S)
PolLaw == /\ (P.cb /\ P.dflt = "replace" /\ P.rules = <<>> /\ D.t = "obj" /\ S.t = "obj") =>
               \A i \in 1..Len(S.kv) : R.kv[KeyIdx(R.kv, S.kv[i].k, ic)].v = S.kv[i].v
          /\ (P.cb /\ P.dflt = "custom" /\ P.rules = <<>> /\ D.t = "obj" /\ S.t = "obj") => Take(R.kv, Len(D.kv)) = D.kv
          /\ (~P.cb => did[1].log = <<>>)
          /\ (P.cb /\ D.t = "obj" /\ S.t = "obj" =>
               \A i \in 1..Len(S.kv) : (\E j \in 1..Len(did[1].log) : did[1].log[j].path = S.kv[i].k) = (KeyIdx(D.kv, S.kv[i].k, ic) > 0))
n == a * 1000 + b * 17 + pol * 5 + IF ic THEN 1 ELSE 0
Via(i) == <<"build", "lazy", "msgpack", "build">>[(i % 4) + 1]
New == M(<<122>>, I(9))
Script == <<SBuild(0, D, Via(n), n % 3 = 0), SBuild(1, S, Via(n \div 4), n % 5 = 0), SMerge(1, <<>>, 0, <<>>, P), SDumps>>
          \o (IF n % 2 = 0 THEN \* the merged document does not share values with its source
                <<SMut(1, IF CountOf(S) > 0 /\ IsCont((ByIndex(S, 0)).v) THEN <<SN(0)>> ELSE <<>>,
                       IF S.t = "arr" THEN [f |-> "Append", kd |-> "int"] ELSE [f |-> "SetKeyInt", k |-> New.k, i |-> New.v.i]), SDumps>>
              ELSE <<SMerge(1, <<>>, 0, <<>>, P), SDumps>>)
          \o (IF n % 3 = 1 THEN <<SMerge(0, <<>>, 0, <<>>, P), SDumps>> ELSE <<>>)     \* with itself
Show == Picked(n) => Emit(Script, ic)
Check == did # <<>> => WellFormed(R) /\ KeysLaw /\ ArrLaw /\ EmptyLaw /\ PolLaw /\ Show
=============================================================================
