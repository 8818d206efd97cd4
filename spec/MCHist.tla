-------------------------------- MODULE MCHist --------------------------------
(***************************************************************************)
(* Histories of mutations over a set of start documents: every operation    *)
(* at every position, up to DEPTH operations.  The steps are those of       *)
(* System!Judge; the laws of C01, C03, C16, C18 and C24 are checked on      *)
(* every step, and the histories are replayed into the library.             *)
(***************************************************************************)
EXTENDS Script

VARIABLES ic, regs, hist, was, op, h
vars == <<ic, regs, hist, was, op, h>>

A == <<97>>
B == <<98>>
C == <<99>>
CapA == <<65>>
One == IntD(I64Of(1))
M(k, v) == [k |-> k, v |-> v]
Starts == <<
  Obj(<<M(A, One), M(B, Str(<<120>>))>>),
  Obj(<<M(A, Obj(<<M(B, Arr(<<One>>))>>)), M(C, Const("true"))>>),
  Arr(<<One, Str(<<120, 34>>), Obj(<<M(A, Const("null"))>>)>>),
  Obj(<<M(B, Arr(<<Arr(<<>>), Obj(<<>>)>>)), M(CapA, Dbl(ScaledF64(3, 1)))>>),
  Arr(<<>>), Obj(<<>>), Str(<<97, 10>>), IntD(I64Of(-7)), Bin(<<1, 255>>), Ext(5, <<9>>), Flt(<<63, 192, 0, 0>>),
  Dt(ScaledF64(45000 * 2 + 1, 1))>>
Kinds == {"obj", "arr", "str", "int", "flt", "dbl", "dt", "bin", "ext"}
Keys == {A, B, CapA}
Idx == {-1, 0, 1, 3}
D25 == ScaledF64(5, 1)
T25 == ScaledF64(90001, 1)
Ops ==
  [f : {"SetInt"}, i : {I64Of(42)}] \cup [f : {"SetFloat"}, fl : {<<63, 192, 0, 0>>}] \cup [f : {"SetDouble"}, d : {D25}]
  \cup [f : {"SetTime"}, d : {T25}] \cup [f : {"SetString"}, s : {<<110, 101, 119>>}] \cup [f : {"SetBool"}, bv : BOOLEAN]
  \cup [f : {"SetBinary"}, b : {<<7, 8, 9>>}] \cup [f : {"SetExtType"}, x : {7}] \cup [f : {"Reset"}, kd : Kinds] \cup [f : {"Clear"}]
  \cup [f : {"SetKey"}, k : Keys, kd : {"obj", "arr", "str", "int", "dt"}]
  \cup [f : {"SetKeyInt"}, k : Keys, i : {I64Of(300)}] \cup [f : {"SetKeyFloat"}, k : Keys, fl : {<<64, 32, 0, 0>>}]
  \cup [f : {"SetKeyDouble"}, k : {A}, d : {D25}] \cup [f : {"SetKeyString"}, k : Keys, s : {<<92, 110>>}]
  \cup [f : {"SetKeyBool"}, k : Keys, bv : {TRUE}] \cup [f : {"SetKeyTime"}, k : {A}, d : {T25}]
  \cup [f : {"SetKeyConst"}, k : {B}, kd : {"null", "false"}] \cup [f : {"SetKeyNil"}, k : {A, B}] \cup [f : {"SetIndexNil"}, n : {0, 9}] \cup [f : {"SetKeyBin"}, k : {A}, b : {<<0, 1>>}]
  \cup [f : {"SetKeyExt"}, k : {B}, x : {3}, b : {<<4>>}]
  \cup [f : {"SetIndex"}, n : Idx, kd : {"obj", "str", "int"}] \cup [f : {"SetIndexInt"}, n : Idx, i : {I64Of(-1)}]
  \cup [f : {"SetIndexFloat"}, n : {0}, fl : {<<64, 32, 0, 0>>}] \cup [f : {"SetIndexDouble"}, n : {1}, d : {D25}]
  \cup [f : {"SetIndexString"}, n : Idx, s : {<<113>>}] \cup [f : {"SetIndexBool"}, n : {0}, bv : {FALSE}]
  \cup [f : {"SetIndexTime"}, n : {0}, d : {T25}] \cup [f : {"SetIndexConst"}, n : {1}, kd : {"true"}]
  \cup [f : {"Append"}, kd : {"obj", "int", "str"}] \cup [f : {"Insert"}, n : Idx, kd : {"arr", "dbl"}]
  \cup [f : {"RemoveKey"}, k : Keys] \cup [f : {"RemoveIndex"}, n : Idx]
  \cup [f : {"ForcePath"}, ks : {<<A>>, <<A, B>>, <<B, <<48>>, A>>, <<CapA, C>>}, kd : {"int", "obj"}]
OpSeq == SetToSeq(Ops)

(* positions of a document, as steps from its root *)
RECURSIVE Places(_)
Places(d) ==
  {<<>>} \cup UNION {{<<IF d.t = "obj" /\ i % 2 = 1 THEN SK(d.kv[i].k) ELSE SN(i - 1)>> \o q : q \in Places((ByIndex(d, i - 1)).v)}
                     : i \in 1..CountOf(d)}
(* with case folding a name reaches the first member that matches *)
Good(d, p) == Nav(d, p, ic).ok

Via == <<"lazy", "build", "msgpack", "build">>
Init == \E i \in 1..Len(Starts), c \in BOOLEAN :
          /\ ic = c /\ regs = Set(NoRegs, 0, Starts[i]) /\ was = NoRegs /\ op = [f |-> "none"]
          /\ h = (Salt * 7 + i * 13 + (IF c THEN 5 ELSE 0)) % 1000
          /\ hist = <<SBuild(0, Starts[i], LET v == Via[((i + Salt) % 4) + 1]
                              IN IF v # "build" /\ ~IsCont(Starts[i]) THEN "build" ELSE v, (i + Salt) % 4 \in {0, 1})>>
Do(e, s, o, x) ==
  LET j == Judge(regs, e, ic)
  IN /\ j.ok /\ regs' = j.R /\ was' = regs /\ op' = o /\ hist' = hist \o <<s, SDumps>> /\ ic' = ic
     /\ h' = (h * 31 + x) % 999983
Ev(o, p) == [op |-> "mut", st |-> "ok", r |-> 0, p |-> p, o |-> o, nav |-> TRUE, ro |-> FALSE]
MutStep ==
  \E i \in 1..Len(OpSeq) : \E p \in Places(regs[1].v) :
    LET o == OpSeq[i] IN
    /\ Keep(h, i * 5 + Len(p))
    /\ Good(regs[1].v, p) /\ Nav(regs[1].v, p, ic).v.t \notin Consts
    /\ (o.f = "Clear" => p = <<>>)
    /\ Do(Ev(o, p), SMut(0, p, o), [f |-> "mut", o |-> o, p |-> p], i * 7 + Len(p))
(* the same on the second document, which came from the first *)
MutStep2 ==
  \E i \in 1..Len(OpSeq) : \E p \in (IF regs[2].ok THEN Places(regs[2].v) ELSE {}) :
    LET o == OpSeq[i] IN
    /\ Keep(h \div 11, i * 3 + Len(p))
    /\ Good(regs[2].v, p) /\ Nav(regs[2].v, p, ic).v.t \notin Consts
    /\ o.f # "Clear"
    /\ Do([Ev(o, p) EXCEPT !.r = 1], SMut(1, p, o), [f |-> "mut2", o |-> o, p |-> p], i * 11 + Len(p))
(* taking a member out and putting it back elsewhere *)
ExtractStep ==
  \E k \in Keys : \E p \in Places(regs[1].v) :
    LET d == regs[1].v
        n == Nav(d, p, ic)
        f == n.ok /\ n.v.t = "obj" /\ KeyIdx(n.v.kv, k, ic) > 0
    IN /\ Keep(h, 3 + k[1]) /\ Good(d, p) /\ n.v.t = "obj" /\ ~regs[2].ok
       /\ Do([op |-> "extract", st |-> "ok", r |-> 0, p |-> p, k |-> k, to |-> 1, nav |-> TRUE, found |-> f],
             SExtract(0, p, k, 1), [f |-> "extract", k |-> k, p |-> p], 3 + k[1])
PutStep ==
  \E p \in Places(regs[1].v), o \in [f : {"SetKeyValue"}, k : {A, B}] \cup [f : {"SetIndexValue"}, n : {0, 9}] :
    /\ Keep(h \div 3, Len(p)) /\ regs[2].ok /\ Good(regs[1].v, p) /\ Nav(regs[1].v, p, ic).v.t \notin Consts
    /\ Do([op |-> "mut", st |-> "ok", r |-> 0, p |-> p, o |-> o, src |-> 1, nav |-> TRUE, ro |-> FALSE],
          SMutSrc(0, p, o, 1), [f |-> "put", o |-> o, p |-> p], 11 + Len(p))
CloneStep ==
  \E p \in Places(regs[1].v), c \in BOOLEAN :
    /\ Keep(h \div 5, Len(p)) /\ Good(regs[1].v, p) /\ ~regs[2].ok
    /\ Do([op |-> "clone", st |-> "ok", r |-> 0, p |-> p, to |-> 1, nav |-> TRUE],
          SClone(0, p, 1, c), [f |-> "clone", p |-> p], IF c THEN 17 ELSE 19)
CopyStep ==
  \E p \in Places(regs[1].v), how \in {"CopyFrom", "CopyFromCache", "SetValue", "AddFrom"} :
    LET t == Nav(regs[1].v, p, ic) IN
    /\ Keep(h \div 7, Len(p)) /\ regs[2].ok /\ Good(regs[1].v, p) /\ t.v.t \notin Consts
    /\ (how = "AddFrom" => t.v.t = regs[2].v.t)
    /\ Do([op |-> "copy", st |-> "ok", r |-> 1, p |-> <<>>, to |-> 0, q |-> p, how |-> how, nav |-> TRUE, ro |-> FALSE],
          SCopy(1, <<>>, 0, p, how), [f |-> "copy", p |-> p], 23 + Len(p))
Next == /\ (Len(hist) - 1) \div 2 < Depth
        /\ MutStep \/ MutStep2 \/ ExtractStep \/ PutStep \/ CloneStep \/ CopyStep
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Was == was[1].v
Now == regs[1].v
NodeWas == Nav(Was, op.p, ic).v
NodeNow == Nav(Now, op.p, ic).v
(* nothing outside the addressed position changes *)
Frame == op.f \in {"mut", "put", "copy", "extract"} =>
           PutSteps(Was, op.p, Const("null"), ic) = PutSteps(Now, op.p, Const("null"), ic)
KeySetters == {"SetKey", "SetKeyInt", "SetKeyFloat", "SetKeyDouble", "SetKeyString", "SetKeyBool", "SetKeyTime", "SetKeyConst",
               "SetKeyBin", "SetKeyExt", "SetKeyNil"}
IdxSetters == {"SetIndexInt", "SetIndexFloat", "SetIndexDouble", "SetIndexString", "SetIndexBool", "SetIndexTime", "SetIndexConst", "SetIndexNil"}
KeyLaw == (op.f = "mut" /\ op.o.f \in KeySetters /\ NodeWas.t = "obj") =>
  LET a == NodeWas
      b == NodeNow
      x == ByName(b, op.o.k, ic)
  IN /\ x.ok
     /\ b.t = "obj" /\ Len(b.kv) = Len(a.kv) + (IF ByName(a, op.o.k, ic).ok THEN 0 ELSE 1)
     /\ \A i \in 1..Len(a.kv) : b.kv[i].k = a.kv[i].k /\ (KeyEq(a.kv[i].k, op.o.k, ic) \/ b.kv[i] = a.kv[i])
     /\ (op.o.f = "SetKeyInt" => x.v = IntD(op.o.i)) /\ (op.o.f = "SetKeyString" => x.v = Str(op.o.s))
     /\ (op.o.f = "SetKeyFloat" => x.v = Flt(op.o.fl)) /\ (op.o.f = "SetKey" => x.v.t = op.o.kd)
IdxLaw == (op.f = "mut" /\ op.o.f \in IdxSetters /\ NodeWas.t = "arr") =>
  LET a == NodeWas.el
      b == NodeNow.el
      in == op.o.n >= 0 /\ op.o.n < Len(a)
  IN /\ Len(b) = Len(a) + (IF in THEN 0 ELSE 1)
     /\ \A i \in 1..Len(a) : (in /\ i = op.o.n + 1) \/ b[i] = a[i]
     /\ (op.o.f = "SetIndexInt" => b[IF in THEN op.o.n + 1 ELSE Len(b)] = IntD(op.o.i))
RemoveLaw == (op.f = "mut" /\ op.o.f = "RemoveKey" /\ NodeWas.t = "obj") =>
  LET a == NodeWas
      b == NodeNow
      i == KeyIdx(a.kv, op.o.k, ic)
  IN IF i = 0 THEN a = b
     ELSE Len(b.kv) = Len(a.kv) - 1 /\ (\A j \in 1..(i - 1) : b.kv[j] = a.kv[j]) /\ \A j \in i..Len(b.kv) : b.kv[j] = a.kv[j + 1]
(* folded keys stay unique as well *)
FoldUnique(d) == AllNodes(d, LAMBDA n : n.t = "obj" => \A i, j \in 1..Len(n.kv) : i # j => ~KeyEq(n.kv[i].k, n.kv[j].k, ic))
Laws == /\ WellFormed(Now) /\ FoldUnique(Now)
        /\ (op.f # "none" => Frame /\ KeyLaw /\ IdxLaw /\ RemoveLaw)
        /\ (op.f \in {"mut"} /\ was[2].ok => regs[2] = was[2])
        /\ (op.f \in {"mut2", "clone", "none"} => regs[1] = was[1] \/ op.f = "none")
        /\ (op.f = "clone" => regs[2].v = Nav(Was, op.p, ic).v)
        /\ (op.f \in {"mut", "put", "copy"} => EqDoc(NodeNow, NodeNow) \/ HasNaN(NodeNow))
Show == (op.f # "none" /\ (Len(hist) - 1) \div 2 = Depth /\ Picked(h)) => Emit(hist, ic)
Check == Laws /\ Show
=============================================================================
