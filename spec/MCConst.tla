------------------------------- MODULE MCConst -------------------------------
(***************************************************************************)
(* The shared constants null, true, false, NaN and Inf.  Register 0 holds a *)
(* document with one constant as a member, register 1 the constant itself,  *)
(* register 2 another document with the same constant, register 3 something *)
(* to copy, merge and move from.  Every operation at every position, also   *)
(* on the constants themselves; law: what is called on a constant changes   *)
(* nothing anywhere, and a constant is never different in two places.       *)
(***************************************************************************)
EXTENDS Script

VARIABLES ic, kd, regs, hist, was, op, h
vars == <<ic, kd, regs, hist, was, op, h>>

A == <<97>>
B == <<98>>
One == IntD(I64Of(1))
M(k, v) == [k |-> k, v |-> v]
Hosts(c) == <<Obj(<<M(A, c), M(B, One)>>), Arr(<<c, One>>), Arr(<<One, c>>), Obj(<<M(B, Obj(<<M(A, c)>>))>>), Obj(<<M(A, Arr(<<c, c>>)), M(B, c)>>)>>
Donors == <<Obj(<<M(A, One), M(<<99>>, Arr(<<One>>))>>), Arr(<<One>>), Str(<<113>>), Obj(<<M(A, Obj(<<M(B, One)>>))>>)>>
Kinds == {"obj", "arr", "str", "int", "flt", "dbl", "dt", "bin", "ext", "null", "true", "false", "nan", "inf"}
D25 == ScaledF64(5, 1)
T25 == ScaledF64(90001, 1)
Ops ==
  {[f |-> "SetInt", i |-> I64Of(42)], [f |-> "SetFloat", fl |-> <<63, 192, 0, 0>>], [f |-> "SetDouble", d |-> D25], [f |-> "SetTime", d |-> T25],
   [f |-> "SetDelphiTime", d |-> T25], [f |-> "SetString", s |-> <<110>>], [f |-> "SetBinary", b |-> <<7, 8>>], [f |-> "SetBinaryShared", b |-> <<7, 8>>],
   [f |-> "SetExtType", x |-> 7], [f |-> "Clear"], [f |-> "RemoveKey", k |-> A], [f |-> "RemoveIndex", n |-> 0]}
  \cup [f : {"SetBool"}, bv : BOOLEAN] \cup [f : {"Reset"}, kd : Kinds] \cup [f : {"SetKey", "SetKeyCached"}, k : {A}, kd : Kinds]
  \cup [f : {"SetKeyInt"}, k : {A, <<49>>}, i : {I64Of(300)}] \cup [f : {"SetKeyFloat"}, k : {A}, fl : {<<64, 32, 0, 0>>}]
  \cup [f : {"SetKeyDouble"}, k : {A}, d : {D25}] \cup [f : {"SetKeyString"}, k : {A}, s : {<<113>>}] \cup [f : {"SetKeyBool"}, k : {A}, bv : BOOLEAN]
  \cup [f : {"SetKeyTime"}, k : {A}, d : {T25}] \cup [f : {"SetKeyConst"}, k : {A}, kd : {"null", "true", "false", "nan", "inf"}]
  \cup [f : {"SetKeyNil"}, k : {A}] \cup [f : {"SetIndexNil"}, n : {0, 1}] \cup [f : {"SetKeyBin"}, k : {A}, b : {<<0, 1>>}] \cup [f : {"SetKeyExt"}, k : {A}, x : {3}, b : {<<4>>}]
  \cup [f : {"SetIndex"}, n : {0, 1, 7}, kd : Kinds] \cup [f : {"SetIndexInt"}, n : {0, 1}, i : {I64Of(-1)}]
  \cup [f : {"SetIndexFloat"}, n : {0, 1}, fl : {<<64, 32, 0, 0>>}] \cup [f : {"SetIndexDouble"}, n : {0, 1}, d : {D25}]
  \cup [f : {"SetIndexString"}, n : {0, 1}, s : {<<113>>}] \cup [f : {"SetIndexBool"}, n : {0, 1}, bv : BOOLEAN]
  \cup [f : {"SetIndexTime"}, n : {0, 1}, d : {T25}] \cup [f : {"SetIndexConst"}, n : {0, 1}, kd : {"null", "true", "false", "nan", "inf"}]
  \cup [f : {"Append"}, kd : {"obj", "int", "true"}] \cup [f : {"Insert"}, n : {0, 1}, kd : {"arr", "int", "null"}]
  \cup [f : {"ForcePath"}, ks : {<<A>>, <<A, B>>, <<A, B, A>>, <<B, A, <<48>>, B>>, <<A, <<48>>>>, <<<<49>>, A>>}, kd : {"int", "obj", "null"}]
OpSeq == SetToSeq(Ops)
PutOps == <<[f |-> "SetKeyValue", k |-> A], [f |-> "SetIndexValue", n |-> 0], [f |-> "SetIndexValue", n |-> 1]>>
Pols == <<[cb |-> FALSE, dflt |-> "normal", rules |-> <<>>], [cb |-> TRUE, dflt |-> "replace", rules |-> <<>>],
          [cb |-> TRUE, dflt |-> "normal", rules |-> <<[path |-> A, op |-> "custom"]>>]>>

RECURSIVE Places(_)
Places(d) ==
  {<<>>} \cup UNION {{<<IF d.t = "obj" /\ i % 2 = 1 THEN SK(d.kv[i].k) ELSE SN(i - 1)>> \o q : q \in Places((ByIndex(d, i - 1)).v)}
                     : i \in 1..CountOf(d)}
PlacesOf(r) == IF regs[r + 1].ok THEN Places(regs[r + 1].v) ELSE {}
Spot(r, p) == Nav(regs[r + 1].v, p, ic)
Ro(r, p) == Spot(r, p).v.t \in Consts
SNew(r, k) == [op |-> "new", r |-> r, kd |-> k, cached |-> FALSE]
SGo(r, p, n) == [op |-> "setgo", r |-> r, p |-> p, how |-> "root", k |-> <<>>, n |-> 0, cached |-> FALSE, gt |-> [c |-> "base", ty |-> n], seed |-> 1]
SLoad(r, q, fmt, in) == [op |-> "dec", r |-> r, q |-> q, fmt |-> fmt, in |-> in, entry |-> "load", cached |-> FALSE]

Via(k, n) == IF k \in {"null", "true", "false"} THEN <<"consts", "lazy", "msgpack">>[(n % 3) + 1] ELSE "consts"
Init == \E k \in Consts, i \in 1..Len(Hosts(One)), c \in BOOLEAN :
          LET d == Hosts(Const(k))
              x == Donors[((i + Salt) % Len(Donors)) + 1]
              j == (i % Len(d)) + 1
          IN /\ ic = c /\ kd = k /\ was = NoRegs /\ op = [f |-> "none"]
             /\ h = (Salt * 7 + i * 13 + (IF c THEN 5 ELSE 0)) % 1000
             /\ regs = [NoRegs EXCEPT ![1] = Some(d[i]), ![2] = Some(Const(k)), ![3] = Some(d[j]), ![4] = Some(x)]
             /\ hist = <<SBuild(0, d[i], Via(k, i + Salt), (i + Salt) % 4 < 2), SNew(1, k), SBuild(2, d[j], Via(k, i + Salt + 1), TRUE), SBuild(3, x, "build", c), SDumps>>
Do(e, s, o, x) ==
  LET j == Judge(regs, e, ic)
  IN /\ j.ok /\ regs' = j.R /\ was' = regs /\ op' = o /\ hist' = hist \o <<s, SDumps>> /\ UNCHANGED <<ic, kd>>
     /\ h' = (h * 31 + x) % 999983
Ev(r, o, p) == [op |-> "mut", st |-> "ok", r |-> r, p |-> p, o |-> o, nav |-> TRUE, ro |-> Ro(r, p)]
Tag(f, r, p) == [f |-> f, r |-> r, p |-> p, ro |-> Ro(r, p)]
MutStep ==
  \E r \in {0, 1} : \E i \in 1..Len(OpSeq) : \E p \in PlacesOf(r) :
    LET o == OpSeq[i] IN
    /\ Keep(h, i * 5 + Len(p)) /\ Spot(r, p).ok
    /\ (o.f = "Clear" => p = <<>>)
    /\ Do(Ev(r, o, p), SMut(r, p, o), Tag("mut", r, p), i * 7 + Len(p))
PutStep ==
  \E r \in {0, 1} : \E p \in PlacesOf(r), i \in 1..Len(PutOps), src \in {1, 3} :
    /\ Keep(h \div 3, Len(p) + i) /\ src # r /\ regs[src + 1].ok /\ Spot(r, p).ok
    /\ Do([op |-> "mut", st |-> "ok", r |-> r, p |-> p, o |-> PutOps[i], src |-> src, nav |-> TRUE, ro |-> Ro(r, p)],
          SMutSrc(r, p, PutOps[i], src), Tag("put", r, p), 11 + Len(p) + i)
CopyStep ==
  \E r \in {0, 1} : \E p \in PlacesOf(r), how \in {"CopyFrom", "CopyFromCache", "SetValue", "AddFrom"}, src \in {0, 1, 3} :
    /\ Keep(h \div 7, Len(p)) /\ src # r /\ regs[src + 1].ok /\ Spot(r, p).ok
    /\ (how = "AddFrom" => Spot(r, p).v.t = regs[src + 1].v.t)
    /\ Do([op |-> "copy", st |-> "ok", r |-> src, p |-> <<>>, to |-> r, q |-> p, how |-> how, nav |-> TRUE, ro |-> Ro(r, p)],
          SCopy(src, <<>>, r, p, how), Tag("copy", r, p), 23 + Len(p))
MergeStep ==
  \E i \in 1..Len(Pols), r \in {0, 1}, src \in {1, 3} :
    /\ Keep(h \div 9, i) /\ src # r /\ regs[src + 1].ok /\ regs[r + 1].ok
    /\ LET m == Merge(regs[r + 1].v, regs[src + 1].v, Pols[i], ic)
       IN Do([op |-> "merge", st |-> "ok", r |-> src, p |-> <<>>, to |-> r, q |-> <<>>, pol |-> Pols[i], nav |-> TRUE, full |-> TRUE, calls |-> m.log],
             SMerge(src, <<>>, r, <<>>, Pols[i]), Tag("merge", r, <<>>), 29 + i)
LoadStep ==
  \E r \in {0, 1} : \E p \in PlacesOf(r), x \in 1..3 :
    LET fmt == <<"json", "msgpack", "json">>[x]
        in == <<<<91, 49, 93>>, <<145, 1>>, <<91>>>>[x]     \* [1] twice, and damaged
        d == IF x = 3 THEN Const("null") ELSE Arr(<<One>>)
    IN /\ Keep(h \div 13, Len(p)) /\ Spot(r, p).ok
       /\ Do([op |-> "dec", st |-> "ok", fmt |-> fmt, entry |-> "load", r |-> r, in |-> in, q |-> p, nav |-> TRUE, ro |-> Ro(r, p), inmod |-> FALSE, err |-> TRUE,
              ok |-> x # 3 /\ ~Ro(r, p), dumped |-> FALSE, hasdoc |-> TRUE, big |-> FALSE],
             SLoad(r, p, fmt, in), Tag("load", r, p), 31 + Len(p) + x)
GoStep ==
  \E r \in {0, 1} : \E p \in PlacesOf(r), ty \in {"int", "string", "bool", "bytes", "inner", "time"} :
    /\ Keep(h \div 17, Len(p)) /\ Spot(r, p).ok /\ Ro(r, p)
    /\ Do([op |-> "setgo", st |-> "ok", how |-> "root", r |-> r, p |-> p, nav |-> TRUE, ro |-> TRUE, d |-> regs[r + 1].v], SGo(r, p, ty), Tag("go", r, p), 37 + Len(p))
FreeStep ==
  /\ Keep(h \div 19, 1) /\ regs[2].ok
  /\ Do([op |-> "free", st |-> "ok", r |-> 1], SFree(1), [f |-> "free"], 41)
CloneStep ==
  \E r \in {0, 1} : \E p \in PlacesOf(r), c \in BOOLEAN :
    /\ Keep(h \div 5, Len(p)) /\ regs[r + 1].ok /\ Spot(r, p).ok /\ ~regs[5].ok
    /\ Do([op |-> "clone", st |-> "ok", r |-> r, p |-> p, to |-> 4, nav |-> TRUE], SClone(r, p, 4, c), [f |-> "clone"], IF c THEN 17 ELSE 19)
Moves == (Len(hist) - 5) \div 2
Next == /\ Moves < Depth
        /\ MutStep \/ PutStep \/ CopyStep \/ MergeStep \/ LoadStep \/ GoStep \/ FreeStep \/ CloneStep
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
TheConst == regs[2].ok => regs[2].v = Const(kd)
Others == op.f # "none" => regs[3] = was[3]
Quiet == (op.f \in {"mut", "put", "copy", "merge", "load", "go"} /\ op.ro) => \A i \in 1..NReg : regs[i] = was[i]
Show == (op.f # "none" /\ Moves = Depth /\ Picked(h)) => Emit(hist, ic)
Check == TheConst /\ Others /\ Quiet /\ Show
=============================================================================
