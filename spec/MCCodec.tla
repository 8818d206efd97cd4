-------------------------------- MODULE MCCodec --------------------------------
(***************************************************************************)
(* The codecs on boundary values: every value alone, in an array and in an  *)
(* object, every longer MsgPack form of it, every truncation and every      *)
(* single-byte extension of its encodings.  Laws: reading the encoding of d *)
(* gives d; no proper prefix of an encoding is accepted.                    *)
(***************************************************************************)
EXTENDS Script

VARIABLES v, ctx, what, cut, on
vars == <<v, ctx, what, cut, on>>
M(k, x) == [k |-> k, v |-> x]
Fill(k) == [i \in 1..k |-> 97 + (i % 26)]
P(neg, k, more) == \* +-(2^k + more)
  LET mag == NatBits(IF more >= 0 THEN NatAdd(NatShl(<<1>>, k), NatSmall(more)) ELSE NatSub(NatShl(<<1>>, k), NatSmall(-more)))
  IN IntD(I64OfMag(neg, mag))
Ints == {IntD(I64Zero)} \cup {P(s, k, d) : s \in BOOLEAN, k \in {5, 7, 8, 15, 16, 31, 32, 53}, d \in {-1, 0, 1}}
        \cup {P(FALSE, 63, -1), P(TRUE, 63, 0), P(TRUE, 63, -1)}
Strs == {Str(Fill(k)) : k \in {0, 1, 31, 32, 33, 127, 255, 256}} \cup {Str(<<34, 92, 10, 195, 169, 226, 130, 172, 240, 159, 152, 128>>), Str(<<0>>), Str(<<47, 60, 127>>)}
Bins == {Bin(Fill(k)) : k \in {0, 1, 255, 256}} \cup {Ext(x, Fill(k)) : x \in {0, 1, 127, 128}, k \in {1, 2, 16}}
        \cup {Ext(9, Fill(k)) : k \in {3, 4, 5, 7, 8, 9, 15, 17, 255, 256}}
Flts == {Dbl(x) : x \in {DZero, DNegZero, DOne, ScaledF64(-3, 1), <<127, 239, 255, 255, 255, 255, 255, 255>>, <<0, 0, 0, 0, 0, 0, 0, 1>>, <<0, 16, 0, 0, 0, 0, 0, 0>>,
                          DInf(FALSE), DInf(TRUE), DNaN, <<67, 48, 0, 0, 0, 0, 0, 1>>, <<63, 185, 153, 153, 153, 153, 153, 154>>}}
        \cup {Flt(x) : x \in {Zeros(4), <<63, 128, 0, 0>>, <<127, 127, 255, 255>>, <<0, 0, 0, 1>>, <<255, 128, 0, 0>>, <<61, 204, 204, 205>>}}
Dts == {Dt(ScaledF64(x, 10)) : x \in {25569 * 1024, 25569 * 1024 + 1, 25568 * 1024, 45000 * 1024 + 512, 1024 * 85000 + 3, 25569 * 1024 + 1023, 1024 * 75000}}
Others == {Const(k) : k \in Consts} \cup {Arr([i \in 1..k |-> IntD(I64Of(i % 3))]) : k \in {0, 1, 15, 16, 17, 102}}
          \cup {Obj([i \in 1..k |-> M(<<107, 64 + i>>, Const("null"))]) : k \in {0, 1, 15, 16, 17}}
          \cup {Obj(<<M(Fill(k), Str(Fill(2)))>>) : k \in {0, 31, 32, 256}}
          \cup {Obj(<<M(<<97>>, Arr(<<Obj(<<M(<<98>>, Arr(<<>>))>>), Str(<<120>>)>>)), M(<<98>>, Obj(<<>>))>>)}
Vals == SetToSeq(Ints \cup Strs \cup Bins \cup Flts \cup Dts \cup Others)
Ctx(d, c) == CASE c = 0 -> d [] c = 1 -> Arr(<<d, IntD(I64One)>>) [] OTHER -> Obj(<<M(<<97>>, d), M(<<98>>, Str(<<122>>))>>)

(* other MsgPack forms of a value: longer than necessary, but valid *)
WideInt(b) ==
  LET pos == ~I64Neg(b)
      zero(k) == \A i \in 1..(8 - k) : b[i] = 0
      sgn(k) == \A i \in 1..(8 - k) : b[i] = (IF b[9 - k] >= 128 THEN 255 ELSE 0)
  IN {<<204>> \o SubSeq(b, 9 - k, 8) : k \in {q \in {1} : pos /\ zero(q)}} \cup {<<205>> \o SubSeq(b, 9 - k, 8) : k \in {q \in {2} : pos /\ zero(q)}}
     \cup {<<206>> \o SubSeq(b, 9 - k, 8) : k \in {q \in {4} : pos /\ zero(q)}} \cup {<<207>> \o b : q \in {p \in {1} : pos}}
     \cup {<<208>> \o SubSeq(b, 9 - k, 8) : k \in {q \in {1} : sgn(q)}} \cup {<<209>> \o SubSeq(b, 9 - k, 8) : k \in {q \in {2} : sgn(q)}}
     \cup {<<210>> \o SubSeq(b, 9 - k, 8) : k \in {q \in {4} : sgn(q)}} \cup {<<211>> \o b}
Wides(d) ==
  CASE d.t = "int" -> WideInt(d.i)
    [] d.t = "str" -> LET n == Len(d.s) IN {<<218>> \o U16(n) \o d.s, <<219>> \o U32(n) \o d.s} \cup {<<217>> \o U8(q) \o d.s : q \in {x \in {n} : x < 256}}
    [] d.t = "bin" -> LET n == Len(d.b) IN {<<197>> \o U16(n) \o d.b, <<198>> \o U32(n) \o d.b}
    [] d.t = "ext" -> LET n == Len(d.b) IN {<<200>> \o U16(n) \o <<d.x>> \o d.b, <<201>> \o U32(n) \o <<d.x>> \o d.b} \cup {<<199>> \o U8(q) \o <<d.x>> \o d.b : q \in {x \in {n} : x < 256}}
    [] d.t = "arr" -> LET n == Len(d.el)
                          body == FlattenSeq([i \in 1..n |-> MpEnc(d.el[i])]) IN {<<220>> \o U16(n) \o body, <<221>> \o U32(n) \o body}
    [] d.t = "obj" -> LET n == Len(d.kv)
                          body == FlattenSeq([i \in 1..n |-> StrHead(Len(d.kv[i].k)) \o d.kv[i].k \o MpEnc(d.kv[i].v)])
                          wk == FlattenSeq([i \in 1..n |-> <<219>> \o U32(Len(d.kv[i].k)) \o d.kv[i].k \o MpEnc(d.kv[i].v)])
                      IN {<<222>> \o U16(n) \o body, <<223>> \o U32(n) \o body, MapHead(n) \o wk}
    [] OTHER -> {}
In(c, w) == CASE c = 0 -> w [] c = 1 -> <<146>> \o w \o <<1>> [] OTHER -> <<130, 161, 97>> \o w \o <<161, 98, 161, 122>>
WideSeq(d) == SetToSeq(Wides(d))

D == Ctx(Vals[v], ctx)
Enc(f) == IF f = "msgpack" THEN MpEnc(D) ELSE BsonDoc(D)
Whats == <<"msgpack", "bson", "json", "wide", "mpcut", "bsoncut">>
Init == /\ v \in 1..Len(Vals) /\ ctx \in 0..2 /\ what \in 1..6 /\ on = FALSE
        /\ Keep(v * 3 + ctx, what)
        /\ cut \in CASE what = 4 -> 1..Len(WideSeq(Vals[v]))
                     [] what = 5 -> IF v % 5 = Salt % 5 THEN 0..Min2(Len(MpEnc(D)) - 1, 40) ELSE {Len(MpEnc(D)) - 1}
                     [] what = 6 -> IF BsonEncodable(D) THEN (IF v % 5 = Salt % 5 THEN 1..Min2(Len(BsonDoc(D)) - 1, 40) ELSE {Len(BsonDoc(D)) - 1}) ELSE {}
                     [] OTHER -> {0}
        /\ (what = 2 => BsonEncodable(D))
Next == ~on /\ on' = TRUE /\ UNCHANGED <<v, ctx, what, cut>>
Spec == Init /\ [][Next]_vars
(* what reading the MsgPack encoding back gives *)
RECURSIVE MpBack(_)
MpBack(d) == CASE d.t = "obj" -> Obj([i \in 1..Len(d.kv) |-> M(d.kv[i].k, MpBack(d.kv[i].v))])
               [] d.t = "arr" -> Arr([i \in 1..Len(d.el) |-> MpBack(d.el[i])])
               [] d.t = "nan" -> Dbl(DNaN) [] d.t = "inf" -> Dbl(DInf(FALSE))
               [] OTHER -> d
Law ==
  CASE what = 1 -> LET c == MpClass(MpEnc(D)) IN c.c = "doc" /\ c.d = MpBack(D)
    [] what = 2 -> LET c == BsonClass(BsonDoc(D))
                   early == Vals[v].t = "dt" /\ I64Neg(UnixSec(DtParts(Vals[v].d)))    \* before 1970: open
               IN early \/ (c.c = "doc" /\ c.d = BsonRoot(D))
    [] what = 4 -> LET w == In(ctx, WideSeq(Vals[v])[cut])
                       c == MpClass(w) IN c.c = "doc" /\ c.d = MpBack(D) /\ Len(w) >= Len(MpEnc(D))
    [] what = 5 -> (MpClass(Take(MpEnc(D), cut))).c = "err"
    [] what = 6 -> (BsonClass(Take(BsonDoc(D), cut))).c = "err"
    [] OTHER -> TRUE
n == v * 97 + ctx * 31 + what * 7 + cut
Entry(i) == <<"new", "load", "new", "unmarshal">>[(i % 4) + 1]
Start == <<[op |-> "new", r |-> 0, kd |-> <<"obj", "str", "arr", "int">>[(n % 4) + 1], cached |-> n % 3 = 0]>>
Dec(f, s) == IF Entry(n) = "new" THEN <<SDec(0, f, s, "new", n % 2 = 0)>> ELSE Start \o <<SDec(0, f, s, "load", n % 2 = 0)>>
Script ==
  CASE what \in {1, 2} -> <<SBuild(0, D, "build", n % 3 = 0), SEnc(0, <<>>, Whats[what], "none", 1), SDumps>>
    [] what = 3 -> <<SBuild(0, D, "build", n % 3 = 0), SEnc(0, <<>>, "json", <<"all", "ansi", "none">>[((v + Salt) % 3) + 1], 1), SDumps>>
    [] what = 4 -> Dec("msgpack", In(ctx, WideSeq(Vals[v])[cut])) \o <<SDumps>>
    [] what = 5 -> Dec("msgpack", Take(MpEnc(D), cut)) \o <<SDumps>>
    [] OTHER -> Dec("bson", Take(BsonDoc(D), cut)) \o <<SDumps>>
Check == on => Law /\ (Picked(n) => Emit(Script, FALSE))
=============================================================================
