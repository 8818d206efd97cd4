-------------------------------- MODULE MCWide --------------------------------
(***************************************************************************)
(* Wide containers: arrays and objects of 9, 17 and 33 members, changed at  *)
(* the places where storage grows, encodings change their heads and lookups *)
(* may change their strategy; then copied, changed again on either side,    *)
(* merged, encoded and decoded.  Laws: a change at one place moves or       *)
(* replaces what it should and nothing else; a copy is equal and apart.     *)
(***************************************************************************)
EXTENDS Script

VARIABLES ic, regs, hist, was, op, h
vars == <<ic, regs, hist, was, op, h>>

M(k, v) == [k |-> k, v |-> v]
I(n) == IntD(I64Of(n))
Kn(i) == (IF i % 7 = 3 THEN <<107, 34>> ELSE IF i % 2 = 0 THEN <<107>> ELSE <<75>>) \o <<48 + (i \div 10), 48 + (i % 10)>>
W == <<119>>
Z == <<122>>
Mixed(i) == CASE i % 5 = 0 -> Str(<<113, 34, 48 + (i % 10)>>) [] i % 5 = 1 -> Obj(<<M(<<97>>, I(i))>>) [] i % 5 = 2 -> I(i)
              [] i % 5 = 3 -> Const(IF i % 2 = 0 THEN "true" ELSE "null") [] OTHER -> Arr(<<I(i), Str(<<>>)>>)
Kinds == {"ints", "mixed", "oints", "omixed", "nest"}
Start(k, n) ==
  CASE k = "ints" -> Arr([i \in 1..n |-> I(i * 3)])
    [] k = "mixed" -> Arr([i \in 1..n |-> Mixed(i)])
    [] k = "oints" -> Obj([i \in 1..n |-> M(Kn(i), I(i))])
    [] k = "omixed" -> Obj([i \in 1..n |-> M(Kn(i), Mixed(i))])
    [] OTHER -> Obj(<<M(W, Arr([i \in 1..n |-> I(i)])), M(Z, Obj([i \in 1..n |-> M(Kn(i), I(0 - i))]))>>)
KNum == [ints |-> 0, mixed |-> 1, oints |-> 2, omixed |-> 3, nest |-> 4]
(* positions, 0-based *)
Spots(n) == {i \in {0, 1, 7, 8, 15, 16, n - 9, n - 2, n - 1, n} : i >= 0}
Boxes(d) == IF d.t = "obj" /\ CountOf(d) = 2 /\ d.kv[1].k = W THEN {<<>>, <<SK(W)>>, <<SK(Z)>>} ELSE {<<>>}
OpsAt(d) ==
  IF d.t = "arr" THEN
    LET S == Spots(Len(d.el)) IN
    [f : {"RemoveIndex"}, n : S] \cup [f : {"Insert"}, n : S, kd : {"int", "arr"}] \cup [f : {"SetIndexInt"}, n : S, i : {I64Of(-5)}]
      \cup [f : {"SetIndex"}, n : S, kd : {"obj"}] \cup [f : {"SetIndexBool"}, n : S, bv : {TRUE}] \cup [f : {"Append"}, kd : {"str"}] \cup [f : {"Clear"}]
  ELSE IF d.t = "obj" THEN
    LET S == {d.kv[i + 1].k : i \in {j \in Spots(Len(d.kv)) : j < Len(d.kv)}} \cup {<<110>>} IN
    [f : {"RemoveKey"}, k : S] \cup [f : {"SetKeyInt"}, k : S, i : {I64Of(-5)}] \cup [f : {"SetKey"}, k : S, kd : {"arr"}] \cup [f : {"SetKeyString"}, k : S, s : {<<92, 110>>}]
      \cup [f : {"SetKeyNil"}, k : S] \cup [f : {"Clear"}]
  ELSE {}
LeafOps == {[f |-> "SetInt", i |-> I64Of(42)], [f |-> "SetString", s |-> <<110, 34>>], [f |-> "Reset", kd |-> "obj"]}
Kids(d) == {IF d.t = "obj" THEN SK(d.kv[i + 1].k) ELSE SN(i) : i \in {j \in Spots(CountOf(d)) : j < CountOf(d)}}

Via == <<"lazy", "build", "msgpack", "build", "json">>
Init == \E k \in Kinds, n \in {9, 17, 33}, c \in BOOLEAN :
          /\ ic = c /\ regs = Set(NoRegs, 0, Start(k, n)) /\ was = NoRegs /\ op = [f |-> "none"]
          /\ h = (Salt * 7 + n * 13 + KNum[k] * 5 + (IF c THEN 5 ELSE 0)) % 1000
          /\ hist = <<SBuild(0, Start(k, n), Via[((n + Salt + KNum[k]) % 5) + 1], (n + Salt) % 4 \in {0, 1})>>
Do(e, s, o, x) ==
  LET j == Judge(regs, e, ic)
  IN /\ j.ok /\ regs' = j.R /\ was' = regs /\ op' = o /\ hist' = hist \o <<s, SDumps>> /\ ic' = ic
     /\ h' = (h * 31 + x) % 999983
Ev(r, o, p) == [op |-> "mut", st |-> "ok", r |-> r, p |-> p, o |-> o, nav |-> TRUE, ro |-> FALSE]
Mutate(r, p, o, x) == Do(Ev(r, o, p), SMut(r, p, o), [f |-> "mut", r |-> r, o |-> o, p |-> p], x)
Num(o) == CASE "n" \in DOMAIN o -> o.n + 3 [] "k" \in DOMAIN o -> Len(o.k) * 7 + o.k[Len(o.k)] [] OTHER -> 1
FNum == [RemoveIndex |-> 1, Insert |-> 2, SetIndexInt |-> 3, SetIndex |-> 4, SetIndexBool |-> 5, Append |-> 6, Clear |-> 7, RemoveKey |-> 8, SetKeyInt |-> 9,
         SetKey |-> 10, SetKeyString |-> 11, SetKeyNil |-> 12, SetInt |-> 13, SetString |-> 14, Reset |-> 15]
Code(o) == FNum[o.f] * 41 + Num(o)
MutStep ==
  \E r \in {0, 1} : \E p \in (IF regs[r + 1].ok THEN Boxes(regs[r + 1].v) ELSE {}) :
    LET d == Nav(regs[r + 1].v, p, ic).v IN
    \/ \E o \in OpsAt(d) : Keep(h, Code(o) + r) /\ (o.f = "Clear" => p = <<>> /\ h % 9 = 0) /\ Mutate(r, p, o, Code(o) + r)
    \/ \E q \in Kids(d), o \in LeafOps :
         LET pq == Append(p, q)
             t == Nav(regs[r + 1].v, pq, ic) IN
         /\ Keep(h \div 5, Code(o) + Code(q @@ [f |-> "SetInt"]) + r) /\ t.ok /\ t.v.t \notin Consts /\ Mutate(r, pq, o, Code(o) + r)
ExtractStep ==
  \E p \in Boxes(regs[1].v) : \E q \in Kids(Nav(regs[1].v, p, ic).v) :
    /\ Keep(h, 3 + Len(p)) /\ "k" \in DOMAIN q /\ ~regs[3].ok
    /\ Do([op |-> "extract", st |-> "ok", r |-> 0, p |-> p, k |-> q.k, to |-> 2, nav |-> TRUE, found |-> TRUE],
          SExtract(0, p, q.k, 2), [f |-> "extract", k |-> q.k, p |-> p], q.k[Len(q.k)])
CloneStep ==
  \E c \in BOOLEAN :
    /\ Keep(h \div 5, 1) /\ ~regs[2].ok
    /\ Do([op |-> "clone", st |-> "ok", r |-> 0, p |-> <<>>, to |-> 1, nav |-> TRUE], SClone(0, <<>>, 1, c), [f |-> "clone"], IF c THEN 17 ELSE 19)
CopyStep ==
  \E how \in {"CopyFrom", "CopyFromCache", "SetValue", "AddFrom"} :
    /\ Keep(h \div 7, 2) /\ regs[2].ok /\ (how = "AddFrom" => regs[1].v.t = regs[2].v.t)
    /\ Do([op |-> "copy", st |-> "ok", r |-> 0, p |-> <<>>, to |-> 1, q |-> <<>>, how |-> how, nav |-> TRUE, ro |-> FALSE],
          SCopy(0, <<>>, 1, <<>>, how), [f |-> "copy", how |-> how], 23)
Next == /\ (Len(hist) - 1) \div 2 < Depth
        /\ MutStep \/ ExtractStep \/ CloneStep \/ CopyStep
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* laws, on the node that was addressed *)
Was == Nav(was[op.r + 1].v, op.p, ic).v
Now == Nav(regs[op.r + 1].v, op.p, ic).v
Moved ==
  op.f = "mut" =>
    /\ \A k \in 1..3 : k # op.r + 1 => regs[k] = was[k]
    /\ CASE op.o.f = "RemoveIndex" -> Now.el = [i \in 1..(IF op.o.n < Len(Was.el) THEN Len(Was.el) - 1 ELSE Len(Was.el)) |-> Was.el[IF i <= op.o.n THEN i ELSE i + 1]]
         [] op.o.f = "Insert" -> LET at == Min2(op.o.n, Len(Was.el)) IN
              /\ Len(Now.el) = Len(Was.el) + 1 /\ Now.el[at + 1].t = op.o.kd
              /\ \A i \in 1..Len(Was.el) : Now.el[IF i <= at THEN i ELSE i + 1] = Was.el[i]
         [] op.o.f \in {"SetIndexInt", "SetIndex", "SetIndexBool"} ->
              /\ \A i \in 1..Len(Was.el) : i = op.o.n + 1 \/ Now.el[i] = Was.el[i]
              /\ Len(Now.el) = Len(Was.el) + (IF op.o.n < Len(Was.el) THEN 0 ELSE 1)
         [] op.o.f = "Append" -> Now.el = Append(Was.el, Str(<<>>))
         [] op.o.f = "RemoveKey" -> Now.kv = SelectSeq(Was.kv, LAMBDA m : m.k # op.o.k)
         [] op.o.f \in {"SetKeyInt", "SetKey", "SetKeyString", "SetKeyNil"} ->
              /\ ~ByName(Was, op.o.k, ic).ok => Len(Now.kv) = Len(Was.kv) + 1
              /\ \A i \in 1..Len(Was.kv) : Now.kv[i].k = Was.kv[i].k /\ (Was.kv[i].k = op.o.k \/ Now.kv[i].v = Was.kv[i].v)
         [] OTHER -> TRUE
Copied == /\ (op.f = "clone" => regs[2] = was[1] /\ regs[1] = was[1] /\ EqDoc(regs[1].v, regs[2].v))
          /\ (op.f = "copy" => regs[1] = was[1])
          /\ (op.f = "copy" /\ op.how # "AddFrom" => regs[2].v = regs[1].v)
          /\ (op.f = "extract" => regs[3].ok)
Laws == WellFormed(regs[1].v) /\ Moved /\ Copied
Two == regs[2].ok
Pol(d) == [cb |-> d # "none", dflt |-> d, rules |-> <<>>]
Tail1 == CASE h % 7 = 0 -> <<SEnc(0, <<>>, "msgpack", "none", 3), SEq(0, <<>>, 3, <<>>)>>
           [] h % 7 = 1 -> <<SEnc(0, <<>>, "bson", "none", 3), SEq(0, <<>>, 3, <<>>)>>
           [] h % 7 = 2 -> <<SEnc(0, <<>>, "json", "all", 3), SEq(0, <<>>, 3, <<>>)>>
           [] h % 7 = 3 -> <<[SEnc(0, <<>>, "json", "none", 3) EXCEPT !.fmtd = TRUE], SEq(3, <<>>, 0, <<>>)>>
           [] h % 7 = 4 -> <<SClone(0, <<>>, 3, TRUE), SEq(0, <<>>, 3, <<>>), SFree(3), SBuild(3, Start("mixed", 17), "build", TRUE)>>
           [] h % 7 = 5 -> <<SBuild(3, Start("oints", 9), "build", FALSE), SMerge(0, <<>>, 3, <<>>, Pol("normal")), SMerge(3, <<>>, 0, <<>>, Pol("replace"))>>
           [] OTHER -> <<SDump(0, "name"), SDump(0, "visit"), SDump(0, "items")>>
Tail2 == IF ~Two THEN <<>> ELSE <<SEq(0, <<>>, 1, <<>>), SEq(1, <<>>, 0, <<>>)>> \o
         (IF h % 3 = 0 THEN <<SMerge(1, <<>>, 0, <<>>, Pol("normal")), SEq(0, <<>>, 1, <<>>)>> ELSE IF h % 3 = 1 THEN <<SFree(0)>> ELSE <<>>)
Show == (op.f # "none" /\ (Len(hist) - 1) \div 2 = Depth /\ Picked(h)) => Emit(hist \o Tail1 \o Tail2 \o <<SDumps>>, ic)
Check == Laws /\ Show
=============================================================================
