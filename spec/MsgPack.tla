------------------------------- MODULE MsgPack -------------------------------
(***************************************************************************)
(* The MsgPack format: MpEnc(d) is the one shortest encoding of d;         *)
(* MpClass(s) says what decoding s must give (doc, err, or any where the   *)
(* input is outside the specified domain).                                 *)
(***************************************************************************)
EXTENDS DocOps

U8(n) == <<n % 256>>
U16(n) == <<(n \div 256) % 256, n % 256>>
U32(n) == <<(n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Sized(n, c8, c16, c32) == IF n < 256 THEN <<c8>> \o U8(n)
                          ELSE IF n < 65536 THEN <<c16>> \o U16(n) ELSE <<c32>> \o U32(n)
StrHead(n) == IF n < 32 THEN <<160 + n>> ELSE Sized(n, 217, 218, 219)
BinHead(n) == Sized(n, 196, 197, 198)
ArrHead(n) == IF n < 16 THEN <<144 + n>> ELSE IF n < 65536 THEN <<220>> \o U16(n) ELSE <<221>> \o U32(n)
MapHead(n) == IF n < 16 THEN <<128 + n>> ELSE IF n < 65536 THEN <<222>> \o U16(n) ELSE <<223>> \o U32(n)
ExtHead(n) == CASE n = 1 -> <<212>> [] n = 2 -> <<213>> [] n = 4 -> <<214>> [] n = 8 -> <<215>>
                [] n = 16 -> <<216>> [] OTHER -> Sized(n, 199, 200, 201)
IntEnc(b) ==
  LET w == Len(I64Mag(b)) IN
  IF ~I64Neg(b) THEN
     IF w <= 7 THEN <<b[8]>>
     ELSE IF w <= 8 THEN <<204, b[8]>>
     ELSE IF w <= 16 THEN <<205>> \o SubSeq(b, 7, 8)
     ELSE IF w <= 32 THEN <<206>> \o SubSeq(b, 5, 8)
     ELSE <<207>> \o b
  ELSE LET fits(k) == \* two's complement in k bytes
             (\A i \in 1..(8 - k) : b[i] = 255) /\ b[9 - k] >= 128
       IN IF fits(1) /\ b[8] >= 224 THEN <<b[8]>>
          ELSE IF fits(1) THEN <<208, b[8]>>
          ELSE IF fits(2) THEN <<209>> \o SubSeq(b, 7, 8)
          ELSE IF fits(4) THEN <<210>> \o SubSeq(b, 5, 8)
          ELSE <<211>> \o b
(* timestamp: seconds (8 bytes), milliseconds within the second *)
TimeEnc(p) ==
  LET sec == UnixSec(p)
      ns == NatMul(NatMul(NatSmall(p.ms % 1000), 1000), 1000)
      nb == LET x == NatBits(ns) IN Zeros(30 - Len(x)) \o x
      sb == Bits(sec)
      small == \A i \in 1..30 : sb[i] = 0
  IN IF small /\ p.ms % 1000 = 0 /\ sb[31] = 0 /\ sb[32] = 0 THEN <<214, 255>> \o SubSeq(sec, 5, 8)
     ELSE IF small THEN <<215, 255>> \o OfBits(nb \o SubSeq(sb, 31, 64))
     ELSE <<199, 12, 255>> \o OfBits(<<0, 0>> \o nb) \o sec

RECURSIVE MpEnc(_)
MpEnc(d) ==
  CASE d.t = "obj" -> MapHead(Len(d.kv)) \o
         FlattenSeq([i \in 1..Len(d.kv) |-> StrHead(Len(d.kv[i].k)) \o d.kv[i].k \o MpEnc(d.kv[i].v)])
    [] d.t = "arr" -> ArrHead(Len(d.el)) \o FlattenSeq([i \in 1..Len(d.el) |-> MpEnc(d.el[i])])
    [] d.t = "str" -> StrHead(Len(d.s)) \o d.s
    [] d.t \in {"int", "tsp"} -> IntEnc(d.i)
    [] d.t = "flt" -> <<202>> \o d.f
    [] d.t = "dbl" -> <<203>> \o d.d
    [] d.t = "nan" -> <<203>> \o DNaN
    [] d.t = "inf" -> <<203>> \o DInf(FALSE)
    [] d.t = "dt" -> TimeEnc(DtParts(d.d))
    [] BinLike(d.t) -> BinHead(Len(d.b)) \o d.b
    [] ExtLike(d.t) -> ExtHead(Len(d.b)) \o <<d.x>> \o d.b
    [] d.t = "true" -> <<195>>
    [] d.t = "false" -> <<194>>
    [] d.t = "null" -> <<192>>
MpEncodable(d) == AllNodes(d, LAMBDA n : (n.t = "dt" => DtParts(n.d).ok))
(* a NaN written by the constant has no prescribed payload *)
----------------------------------------------------------------------------
(* any: outside the specification, whatever follows *)
MFail == [ok |-> FALSE, any |-> FALSE]
MAny == [ok |-> FALSE, any |-> TRUE]
MOk(d, n, odd) == [ok |-> TRUE, d |-> d, n |-> n, odd |-> odd]
BeNat(s, i, k) == FoldLeft(LAMBDA a, b : a * 256 + b, 0, SubSeq(s, i, i + k - 1))
(* a length field of k bytes at i; huge values saturate *)
LenAt(s, i, k) == IF i + k - 1 > Len(s) THEN -1
                  ELSE IF k = 4 /\ s[i] >= 64 THEN 1073741824 ELSE BeNat(s, i, k)
SignExt(b) == Zeros(0) \o [i \in 1..8 |-> IF i <= 8 - Len(b) THEN (IF b[1] >= 128 THEN 255 ELSE 0)
                                          ELSE b[i - (8 - Len(b))]]
ZeroExt(b) == Zeros(8 - Len(b)) \o b
(* a time in whole seconds (I64) and nanoseconds (a natural) as a date-time *)
DtOfUnix(sec, nsNat) ==
  LET mag == NatOfBits(I64Mag(sec))
      q == NatDivSmall(mag, 86400)
      neg == I64Neg(sec)
      okDay == Len(q.q) <= 2
      dq == IF q.q = <<>> THEN 0 ELSE q.q[1] + (IF Len(q.q) > 1 THEN q.q[2] * BB ELSE 0)
      day == IF ~neg THEN dq ELSE IF q.r = 0 THEN -dq ELSE -dq - 1
      sod == IF ~neg THEN q.r ELSE IF q.r = 0 THEN 0 ELSE 86400 - q.r
      m1 == NatDivSmall(nsNat, 1000)
      m2 == NatDivSmall(m1.q, 1000)
      msn == IF m2.q = <<>> THEN 0 ELSE m2.q[1]
      ms == sod * 1000 + msn
  IN IF ~okDay \/ m1.r # 0 \/ m2.r # 0 \/ Len(m2.q) > 1 \/ ms % 84375 # 0 \/ day < -25560 \/ day > 68000
     THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, d |-> Dt(ScaledF64((day + 25569) * 1024 + (ms \div 84375), 10))]

RECURSIVE MpVal(_, _), MpSeq(_, _, _, _, _), MpMap(_, _, _, _, _)
MpVal(s, i) ==
  LET c == IF i <= Len(s) THEN s[i] ELSE -1
      take(k, n, F(_)) == \* n content bytes after a k-byte length field
        IF n < 0 \/ i + k + n > Len(s) THEN MFail ELSE MOk(F(SubSeq(s, i + k + 1, i + k + n)), i + k + n + 1, FALSE)
      fixed(n, F(_)) == IF i + n > Len(s) THEN MFail ELSE MOk(F(SubSeq(s, i + 1, i + n)), i + n + 1, FALSE)
      ext(k, n) ==        \* k length bytes, then type, then n bytes
        IF n < 0 \/ i + k + 1 + n > Len(s) THEN MFail
        ELSE LET x == s[i + k + 1]
                 b == SubSeq(s, i + k + 2, i + k + 1 + n)
                 nx == i + k + 2 + n
             IN IF x = 255 /\ c = 214 THEN
                  LET r == DtOfUnix(ZeroExt(b), <<>>) IN MOk(IF r.ok THEN r.d ELSE Const("null"), nx, ~r.ok)
                ELSE IF x = 255 /\ c = 215 THEN
                  LET bb == Bits(b)
                      r == DtOfUnix(OfBits(Zeros(30) \o SubSeq(bb, 31, 64)), NatOfBits(StripLead0(Take(bb, 30))))
                  IN MOk(IF r.ok THEN r.d ELSE Const("null"), nx, ~r.ok)
                ELSE IF x = 255 /\ c = 199 /\ n = 12 THEN
                  LET r == DtOfUnix(SubSeq(b, 5, 12), NatOfBits(StripLead0(Bits(SubSeq(b, 1, 4)))))
                  IN MOk(IF r.ok THEN r.d ELSE Const("null"), nx, ~r.ok)
                ELSE MOk(Ext(x, b), nx, FALSE)
  IN CASE c = -1 -> MFail
       [] c <= 127 -> MOk(IntD(ZeroExt(<<c>>)), i + 1, FALSE)
       [] c <= 143 -> MpMap(s, i + 1, c - 128, <<>>, FALSE)
       [] c <= 159 -> MpSeq(s, i + 1, c - 144, <<>>, FALSE)
       [] c <= 191 -> take(0, c - 160, LAMBDA b : Str(b))
       [] c = 192 -> MOk(Const("null"), i + 1, FALSE)
       [] c = 193 -> MFail
       [] c = 194 -> MOk(Const("false"), i + 1, FALSE)
       [] c = 195 -> MOk(Const("true"), i + 1, FALSE)
       [] c \in {196, 197, 198} -> LET k == 2 ^ (c - 196) IN take(k, LenAt(s, i + 1, k), LAMBDA b : Bin(b))
       [] c \in {199, 200, 201} -> LET k == 2 ^ (c - 199) IN ext(k, LenAt(s, i + 1, k))
       [] c = 202 -> fixed(4, LAMBDA b : Flt(b))
       [] c = 203 -> fixed(8, LAMBDA b : Dbl(b))
       [] c \in 204..206 -> fixed(2 ^ (c - 204), LAMBDA b : IntD(ZeroExt(b)))
       [] c = 207 -> LET r == fixed(8, LAMBDA b : IntD(b)) IN
                     IF r.ok /\ I64Neg(r.d.i) THEN [r EXCEPT !.odd = TRUE] ELSE r
       [] c \in 208..211 -> fixed(2 ^ (c - 208), LAMBDA b : IntD(SignExt(b)))
       [] c \in 212..216 -> ext(0, 2 ^ (c - 212))
       [] c \in 217..219 -> LET k == 2 ^ (c - 217) IN take(k, LenAt(s, i + 1, k), LAMBDA b : Str(b))
       [] c \in {220, 221} -> LET k == 2 * (c - 219)
                                  n == LenAt(s, i + 1, k)
                              IN IF n < 0 THEN MFail ELSE MpSeq(s, i + 1 + k, n, <<>>, FALSE)
       [] c \in {222, 223} -> LET k == 2 * (c - 221)
                                  n == LenAt(s, i + 1, k)
                              IN IF n < 0 THEN MFail ELSE MpMap(s, i + 1 + k, n, <<>>, FALSE)
       [] OTHER -> MOk(IntD(SignExt(<<c>>)), i + 1, FALSE)
MpSeq(s, i, n, el, odd) ==
  IF n = 0 THEN MOk(Arr(el), i, odd)
  ELSE LET v == MpVal(s, i) IN IF ~v.ok THEN v ELSE MpSeq(s, v.n, n - 1, Append(el, v.d), odd \/ v.odd)
MpMap(s, i, n, kv, odd) ==
  IF n = 0 THEN MOk(Obj(kv), i, odd)
  ELSE LET k == MpVal(s, i) IN
    IF ~k.ok THEN k
    ELSE IF k.d.t # "str" THEN MAny
    ELSE LET v == MpVal(s, k.n) IN
      IF ~v.ok THEN v
      ELSE MpMap(s, v.n, n - 1, Append(kv, [k |-> k.d.s, v |-> v.d]),
                 odd \/ v.odd \/ \E q \in 1..Len(kv) : kv[q].k = k.d.s)
MpClass(s) == LET v == MpVal(s, 1)
              IN IF ~v.ok THEN [c |-> IF v.any THEN "any" ELSE "err"]
                 ELSE IF v.odd \/ v.n # Len(s) + 1 THEN [c |-> "any"]
                 ELSE [c |-> "doc", d |-> v.d]
=============================================================================
