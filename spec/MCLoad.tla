-------------------------------- MODULE MCLoad --------------------------------
(***************************************************************************)
(* Loading into a value that already holds something.  Register 0 holds a   *)
(* value of every kind, as a root, as a member or as an element; every      *)
(* input form of the four formats is loaded over it, then something is      *)
(* stored, then another input is loaded, and the result is encoded.  Laws:  *)
(* what was there before leaves no trace in the model; the neighbours stay. *)
(***************************************************************************)
EXTENDS Script

VARIABLES pk, pos, f1, f2, phase, regs, hist, ic
vars == <<pk, pos, f1, f2, phase, regs, hist, ic>>

A == <<97>>
M(k, v) == [k |-> k, v |-> v]
One == IntD(I64Of(1))
(* inputs; empty and damaged ones come last *)
JsonIn == <<<<110,117,108,108>>,
  <<116,114,117,101>>,
  <<102,97,108,115,101>>,
  <<48>>,
  <<55>>,
  <<45,49>>,
  <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>,
  <<45,57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>,
  <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>,
  <<49,46,53>>,
  <<45,48,46,48>>,
  <<49,101,50>>,
  <<49,50,51,52,53,54,55,56,57,46,50,53>>,
  <<34,34>>,
  <<34,115,34>>,
  <<34,97,92,34,98,34>>,
  <<34,92,117,48,48,101,57,92,110,34>>,
  <<34,47,68,97,116,101,40,49,53,57,57,57,53,53,50,48,48,48,48,48,41,47,34>>,
  <<34,68,97,116,101,40,48,48,56,54,52,48,48,48,48,48,41,34>>,
  <<34,92,47,68,97,116,101,40,49,53,57,57,57,53,53,50,48,48,48,48,48,41,92,47,34>>,
  <<91,93>>,
  <<91,49,93>>,
  <<91,110,117,108,108,44,116,114,117,101,44,34,120,34,93>>,
  <<91,91,93,44,91,123,125,93,93>>,
  <<91,34,47,68,97,116,101,40,49,53,57,57,57,53,53,50,48,48,48,48,48,41,47,34,44,49,93>>,
  <<123,125>>,
  <<123,34,97,34,58,49,125>>,
  <<123,34,99,34,58,34,100,34,44,34,97,34,58,91,49,44,50,93,125>>,
  <<123,34,97,34,58,123,34,98,34,58,110,117,108,108,125,125>>,
  <<32,123,34,120,92,116,121,34,32,58,32,50,46,53,32,125,32>>,
  <<123,34,100,34,58,34,47,68,97,116,101,40,49,53,57,57,57,53,53,50,48,48,48,48,48,41,47,34,125>>,
  <<>>,
  <<32>>,
  <<91>>,
  <<91,49,44,93>>,
  <<123,34,97,34,125>>,
  <<123,34,97,34,58,49,44,125>>,
  <<123,34,97,34,58,49,125,120>>,
  <<34>>,
  <<49,32,50>>,
  <<110,117,108>>,
  <<123,44,34,97,34,58,49,125>>,
  <<91,49,125>>,
  <<91,91,49,93>>,
  <<44,49>>,
  <<45>>,
  <<93>>>>
MsgPIn == <<<<7>>,
  <<255>>,
  <<204,200>>,
  <<204,5>>,
  <<205,255,255>>,
  <<205,0,1>>,
  <<206,255,255,255,255>>,
  <<206,128,0,0,0>>,
  <<206,0,0,0,2>>,
  <<207,0,0,0,1,0,0,0,0>>,
  <<207,127,255,255,255,255,255,255,255>>,
  <<208,128>>,
  <<209,128,0>>,
  <<210,128,0,0,0>>,
  <<211,128,0,0,0,0,0,0,0>>,
  <<211,255,255,255,255,255,255,255,255>>,
  <<202,63,128,0,0>>,
  <<203,63,248,0,0,0,0,0,0>>,
  <<192>>,
  <<194>>,
  <<195>>,
  <<160>>,
  <<162,104,105>>,
  <<217,2,104,105>>,
  <<218,0,2,104,105>>,
  <<219,0,0,0,2,104,105>>,
  <<196,2,1,2>>,
  <<197,0,2,1,2>>,
  <<198,0,0,0,2,1,2>>,
  <<196,0>>,
  <<212,5,97>>,
  <<213,5,97,98>>,
  <<214,5,97,98,99,100>>,
  <<215,5,97,98,99,100,101,102,103,104>>,
  <<216,5,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112>>,
  <<199,3,5,97,98,99>>,
  <<200,0,3,5,97,98,99>>,
  <<201,0,0,0,3,5,97,98,99>>,
  <<199,0,5>>,
  <<214,255,95,93,250,0>>,
  <<215,255,0,0,0,0,95,93,250,0>>,
  <<199,12,255,0,0,0,0,0,0,0,0,95,93,250,0>>,
  <<144>>,
  <<146,1,161,120>>,
  <<220,0,1,192>>,
  <<221,0,0,0,1,195>>,
  <<145,145,144>>,
  <<128>>,
  <<129,161,97,1>>,
  <<222,0,1,161,97,206,255,255,255,255>>,
  <<223,0,0,0,1,161,97,192>>,
  <<130,161,97,129,161,98,2,161,99,196,1,9>>,
  <<>>,
  <<193>>,
  <<146,1>>,
  <<129,161,97>>,
  <<165,104,105>>,
  <<205,1>>,
  <<1,2>>,
  <<215,255,0>>,
  <<199,5,5,97,98>>>>
BsonIn == <<<<5,0,0,0,0>>,
  <<12,0,0,0,16,97,0,5,0,0,0,0>>,
  <<27,0,0,0,18,97,0,0,0,0,0,0,1,0,0,1,98,0,0,0,0,0,0,0,4,64,0>>,
  <<18,0,0,0,2,97,0,3,0,0,0,104,105,0,10,110,0,0>>,
  <<13,0,0,0,8,116,0,1,8,102,0,0,0>>,
  <<15,0,0,0,5,98,0,2,0,0,0,0,1,2,0>>,
  <<15,0,0,0,5,98,0,2,0,0,0,5,1,2,0>>,
  <<20,0,0,0,7,111,0,0,1,2,3,4,5,6,7,8,9,10,11,0>>,
  <<24,0,0,0,19,100,0,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,0>>,
  <<16,0,0,0,9,100,0,0,232,194,132,116,1,0,0,0>>,
  <<16,0,0,0,17,116,0,9,0,0,0,0,0,0,0,0>>,
  <<20,0,0,0,3,111,0,12,0,0,0,16,120,0,1,0,0,0,0,0>>,
  <<27,0,0,0,4,108,0,19,0,0,0,16,48,0,1,0,0,0,16,49,0,2,0,0,0,0,0>>,
  <<12,0,0,0,2,0,1,0,0,0,0,0>>,
  <<12,0,0,0,16,97,0,5,0,0,0>>,
  <<15,0,0,0,2,97,0,3,0>>,
  <<12,0,0,0,16,97,0,5,0,0,0,0,0>>,
  <<5,0,0,0>>,
  <<6,0,0,0,0>>,
  <<>>>>
YamlIn == <<<<97,58,32,49,10>>,
  <<97,58,32,120,10,98,58,10,32,32,99,58,32,116,114,117,101,10>>,
  <<45,32,49,10,45,32,120,10>>,
  <<45,32,97,58,32,49,10,32,32,98,58,32,50,10,45,32,122,10>>,
  <<97,58,10,32,32,45,32,49,10,32,32,45,32,50,10>>,
  <<97,58,32,38,115,32,53,10,98,58,32,42,115,10>>,
  <<109,58,32,38,109,10,32,32,120,58,32,49,10,110,58,10,32,32,60,60,58,32,42,109,10,32,32,121,58,32,50,10>>,
  <<35,32,99,10,10,97,58,32,32,32,116,101,120,116,32,104,101,114,101,32,35,32,116,10>>,
  <<97,58,32,49,13,10,98,58,32,102,97,108,115,101,10>>,
  <<>>,
  <<32,10>>,
  <<97,32,49,10>>,
  <<97,58,49,10>>,
  <<58,32,120,10>>,
  <<98,58,32,42,110,111,112,101,10>>,
  <<45,32,38,113,32,49,10,45,32,42,113,10>>,
  <<98,58,32,42,115,10,99,58,32,42,109,10>>>>
Tag(fmt, ins) == [i \in 1..Len(ins) |-> [fmt |-> fmt, in |-> ins[i]]]
Forms == Tag("json", JsonIn) \o Tag("msgpack", MsgPIn) \o Tag("bson", BsonIn) \o Tag("yaml", YamlIn)
NF == Len(Forms)

Kept == <<Obj(<<M(A, One), M(<<98>>, Obj(<<M(<<120>>, Str(<<121>>))>>)), M(<<99, 34>>, Const("true"))>>), Obj(<<>>), Arr(<<One, Arr(<<Str(<<122>>)>>), Const("null")>>), Arr(<<>>),
          Str(<<111, 108, 100>>), IntD(I64Of(-77)), Flt(<<192, 32, 0, 0>>), Dbl(ScaledF64(-5, 1)), Dt(ScaledF64(90001, 1)), Bin(<<1, 2, 3>>), Ext(9, <<7, 7>>),
          [t |-> "oid", b |-> [i \in 1..12 |-> i]], [t |-> "dec", b |-> [i \in 1..16 |-> i]], [t |-> "sub", x |-> 5, b |-> <<3>>], [t |-> "tsp", i |-> I64Of(44)]>>
BsonOnly(d) == d.t \in {"oid", "dec", "sub", "tsp"}
Host(d, p) == CASE p = 0 -> d [] p = 1 -> Obj(<<M(<<112>>, One), M(A, d), M(<<122>>, Str(<<113>>))>>) [] OTHER -> Arr(<<d, One, Str(<<113>>)>>)
Path(p) == CASE p = 0 -> <<>> [] p = 1 -> <<SK(A)>> [] OTHER -> <<SN(0)>>
(* BSON has no root but objects: an array is reached as the member l *)
Start(d, p, n) ==
  IF BsonOnly(d) THEN <<SDec(0, "bson", BsonDoc(Host(d, 1)), "new", FALSE)>>
  ELSE IF n % 3 = 0 /\ d.t \in {"obj", "arr", "str", "int"} THEN <<SBuild(0, Host(d, p), "lazy", p = 0 /\ n % 2 = 0)>>
  ELSE <<SBuild(0, Host(d, p), "build", p = 0 /\ n % 2 = 0)>>

Ops == <<[f |-> "SetKeyInt", k |-> A, i |-> I64Of(300)], [f |-> "SetIndexString", n |-> 0, s |-> <<113, 34>>], [f |-> "SetInt", i |-> I64Of(-5)], [f |-> "SetString", s |-> <<110, 92>>],
         [f |-> "SetBinary", b |-> <<9, 9>>], [f |-> "SetKeyString", k |-> <<99, 34>>, s |-> <<92, 110>>], [f |-> "SetExtType", x |-> 7], [f |-> "RemoveKey", k |-> A],
         [f |-> "Append", kd |-> "int"], [f |-> "SetDouble", d |-> ScaledF64(5, 1)], [f |-> "SetKeyBin", k |-> <<98>>, b |-> <<0, 1>>], [f |-> "Reset", kd |-> "obj"]>>
(* the date-times of the date literals used here are whole days *)
DtOfLit(s) == LET q == NatDivSmall(SecOfDate(s), 240)
                  r == NatDivSmall(q.q, 360)
              IN Dt(ScaledF64(BitsVal(NatBits(r.q)) + 25569, 0))
RECURSIVE Settle(_)
Settle(d) == CASE d.t = "jdate" -> DtOfLit(d.s)
               [] d.t = "obj" -> Obj([i \in 1..Len(d.kv) |-> M(d.kv[i].k, Settle(d.kv[i].v))])
               [] d.t = "arr" -> Arr([i \in 1..Len(d.el) |-> Settle(d.el[i])])
               [] OTHER -> d

n == pk * 7 + pos * 3 + f1
Other == ((f1 * 37 + pk * 11 + pos * 5 + Salt) % NF) + 1
Ev(f) == [op |-> "dec", st |-> "ok", fmt |-> f.fmt, entry |-> "load", r |-> 0, in |-> f.in, q |-> Path(pos), nav |-> TRUE, ro |-> FALSE,
          inmod |-> FALSE, err |-> TRUE, ok |-> TRUE, dumped |-> FALSE, hasdoc |-> TRUE, big |-> FALSE]
Class(f) == LET e == Ev(f) IN IF EmptyIn(e) THEN [c |-> "empty"] ELSE ClassOf(e, ic)
SLoad(f, k) == [op |-> "dec", r |-> 0, q |-> Path(pos), fmt |-> f.fmt, in |-> f.in, entry |-> IF f.fmt = "json" /\ k % 4 = 1 THEN "unmarshal" ELSE "load",
                share |-> ~(f.fmt = "json" /\ k % 4 = 1) /\ k % 3 = 0, cached |-> FALSE]
Init == /\ pk \in 1..Len(Kept) /\ pos \in 0..2 /\ f1 \in 1..NF /\ f2 = 0 /\ phase = 0 /\ ic = FALSE
        /\ (BsonOnly(Kept[pk]) => pos = 1)
        /\ Keep(pk * 31 + pos, f1)
        /\ regs = [NoRegs EXCEPT ![1] = Some(Host(Kept[pk], pos))]
        /\ hist = Start(Kept[pk], pos, n + Salt)
Load(f) ==
  LET c == Class(f)
      known == c.c \in {"doc", "err", "empty"}
      old == Nav(regs[1].v, Path(pos), ic)
      d == CASE c.c = "doc" -> Settle(c.d) [] c.c = "empty" -> Cleared(old.v) [] OTHER -> Const("null")
      \* the event a library that obeys the rules would record
      e == [Ev(f) EXCEPT !.ok = c.c # "err", !.dumped = TRUE] @@ [d |-> d]
      j == Judge(regs, e, ic)
  IN /\ (IF known THEN j.ok /\ regs' = j.R ELSE regs' = PutR(regs, 0, Path(pos), Const("null"), ic))
     /\ hist' = hist \o <<SLoad(f, n + phase), SDumps>>
Step1 == phase = 0 /\ Load(Forms[f1]) /\ f2' = (IF f1 % 4 = 0 THEN f1 ELSE Other) /\ phase' = 1 /\ UNCHANGED <<pk, pos, f1, ic>>
Step2 ==
  /\ phase = 1 /\ phase' = 2
  /\ LET o == Ops[((n + Salt) % Len(Ops)) + 1]
         x == Nav(regs[1].v, Path(pos), ic)
     IN IF Class(Forms[f1]).c = "any" \/ ~x.ok \/ x.v.t \in Consts THEN UNCHANGED <<regs, hist>>
        ELSE /\ regs' = PutR(regs, 0, Path(pos), Mut(o, x.v, ic), ic)
             /\ hist' = hist \o <<SMut(0, Path(pos), o), SDumps>>
  /\ UNCHANGED <<pk, pos, f1, f2, ic>>
Step3 == phase = 2 /\ Load(Forms[f2]) /\ phase' = 3 /\ UNCHANGED <<pk, pos, f1, f2, ic>>
Next == Step1 \/ Step2 \/ Step3
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* what is loaded over one thing is what is loaded over any other; the neighbours stay *)
Trace0 == LET c == Class(Forms[IF phase = 3 THEN f2 ELSE f1]) IN
          (phase \in {1, 3} /\ c.c = "doc") => Nav(regs[1].v, Path(pos), ic) = Some(Settle(c.d))
Emptied == LET c == Class(Forms[f1]) IN (phase = 1 /\ c.c = "empty") => CountOf(Nav(regs[1].v, Path(pos), ic).v) = 0
Beside == pos = 1 => (ByName(regs[1].v, <<112>>, ic) = Some(One) /\ ByName(regs[1].v, <<122>>, ic) = Some(Str(<<113>>)) /\ CountOf(regs[1].v) = 3)
Beside2 == pos = 2 => (ByIndex(regs[1].v, 1) = Some(One) /\ ByIndex(regs[1].v, 2) = Some(Str(<<113>>)) /\ CountOf(regs[1].v) = 3)
Show == (phase = 3 /\ Picked(n)) => Emit(hist \o <<SEnc(0, <<>>, "json", "all", 1), SEnc(0, <<>>, "msgpack", "none", 2), SDumps>>, ic)
Check == Trace0 /\ Emptied /\ Beside /\ Beside2 /\ Show
=============================================================================
