-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Exact arithmetic for the value types of dxsvalue.  TLC's integers have  *)
(* 32 bits, so 64-bit integers are sequences of 8 bytes (big endian, two's *)
(* complement) and IEEE-754 numbers are sequences of 4 or 8 bytes (big     *)
(* endian).  Everything is computed exactly on bit sequences (most         *)
(* significant bit first) and on natural numbers in base 4096.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

Zeros(n) == [i \in 1..n |-> 0]
Ones(n)  == [i \in 1..n |-> 1]
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))

(* index of the first element of s satisfying P, 0 if none *)
FirstIdx(s, P(_)) ==
  LET S == {i \in 1..Len(s) : P(s[i])}
  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

StripLead0(s) == LET i == FirstIdx(s, LAMBDA x : x # 0) IN IF i = 0 THEN <<>> ELSE Drop(s, i - 1)

----------------------------------------------------------------------------
(* bytes <-> bits *)
ByteBits == [b \in 0..255 |->
   << (b \div 128) % 2, (b \div 64) % 2, (b \div 32) % 2, (b \div 16) % 2,
      (b \div 8) % 2, (b \div 4) % 2, (b \div 2) % 2, b % 2 >>]
Bits(bytes) == [i \in 1..(8 * Len(bytes)) |-> ByteBits[bytes[((i - 1) \div 8) + 1]][((i - 1) % 8) + 1]]
BitsVal(bits) == FoldLeft(LAMBDA a, b : 2 * a + b, 0, bits)          \* < 2^31
OfBits(bits) == [i \in 1..(Len(bits) \div 8) |-> BitsVal(SubSeq(bits, 8 * i - 7, 8 * i))]
IntBits(n, w) == [i \in 1..w |-> (n \div (2 ^ (w - i))) % 2]         \* w <= 31

(* add one to a bit sequence; the carry out of the top is returned too *)
IncBits(bits) ==
  LET Z == {i \in 1..Len(bits) : bits[i] = 0}
      p == IF Z = {} THEN 0 ELSE CHOOSE i \in Z : \A j \in Z : j <= i
  IN [carry |-> p = 0,
      bits  |-> [i \in 1..Len(bits) |-> IF i > p THEN 0 ELSE IF i = p THEN 1 ELSE bits[i]]]

NotBits(bits) == [i \in 1..Len(bits) |-> 1 - bits[i]]

----------------------------------------------------------------------------
(* natural numbers: base 4096, little endian, no leading zero limbs *)
BB == 4096
RECURSIVE NatTrim(_)
NatTrim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN NatTrim(Front(a)) ELSE a
(* a * m + c, m,c < 2^18 *)
NatMulAdd(a, m, c) ==
  LET st == FoldLeft(LAMBDA s, x : LET t == x * m + s.c
                                   IN [c |-> t \div BB, r |-> Append(s.r, t % BB)],
                     [c |-> c, r |-> <<>>], a)
      RECURSIVE Spill(_, _)
      Spill(r, k) == IF k = 0 THEN r ELSE Spill(Append(r, k % BB), k \div BB)
  IN NatTrim(Spill(st.r, st.c))
NatOfDigits(ds) == FoldLeft(LAMBDA a, d : NatMulAdd(a, 10, d), <<>>, ds)   \* ds: 0..9
RECURSIVE NatPow10Mul(_, _)
NatPow10Mul(a, e) == IF e = 0 THEN a
                     ELSE IF e >= 4 THEN NatPow10Mul(NatMulAdd(a, 10000, 0), e - 4)
                     ELSE NatPow10Mul(NatMulAdd(a, 10, 0), e - 1)
NatLessN(a, b, n) == LET D == {i \in 1..n : a[i] # b[i]}
                     IN IF D = {} THEN FALSE
                        ELSE LET m == CHOOSE i \in D : \A j \in D : j <= i IN a[m] < b[m]
NatLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE NatLessN(a, b, Len(a))
(* a - b, a >= b *)
NatSub(a, b) ==
  LET st == FoldLeft(LAMBDA s, i :
                LET t == a[i] - (IF i <= Len(b) THEN b[i] ELSE 0) - s.c
                IN IF t < 0 THEN [c |-> 1, r |-> Append(s.r, t + BB)]
                   ELSE [c |-> 0, r |-> Append(s.r, t)],
              [c |-> 0, r |-> <<>>], [i \in 1..Len(a) |-> i])
  IN NatTrim(st.r)
NatBits(a) == StripLead0(FlattenSeq([i \in 1..Len(a) |-> IntBits(a[Len(a) + 1 - i], 12)]))
(* bit sequence -> natural *)
NatOfBits(bits) ==
  LET pad == (12 - (Len(bits) % 12)) % 12
      b == Zeros(pad) \o bits
      n == Len(b) \div 12
  IN NatTrim([i \in 1..n |-> BitsVal(SubSeq(b, 12 * (n - i) + 1, 12 * (n - i) + 12))])
NatShl(a, k) == IF a = <<>> THEN a ELSE
  LET w == k \div 12 IN Zeros(w) \o NatMulAdd(a, 2 ^ (k % 12), 0)
(* natural -> decimal digits, most significant first, <<0>> for zero *)
NatDivSmall(a, d) ==   \* limbs from the top
  LET st == FoldLeft(LAMBDA s, i :
              LET t == s.r * BB + a[Len(a) + 1 - i]
              IN [q |-> <<t \div d>> \o s.q, r |-> t % d],
            [q |-> <<>>, r |-> 0], [i \in 1..Len(a) |-> i])
  IN [q |-> NatTrim(st.q), r |-> st.r]
RECURSIVE NatDigits0(_, _)
NatDigits0(a, acc) == IF a = <<>> THEN acc
                      ELSE LET d == NatDivSmall(a, 10) IN NatDigits0(d.q, <<d.r>> \o acc)
NatDigits(a) == IF a = <<>> THEN <<0>> ELSE NatDigits0(a, <<>>)

----------------------------------------------------------------------------
(* 64-bit integers *)
I64Neg(b) == b[1] >= 128
(* magnitude as a bit sequence without leading zeros; -2^63 works as well *)
I64Mag(b) == IF I64Neg(b) THEN StripLead0(LET r == IncBits(NotBits(Bits(b))) IN r.bits)
             ELSE StripLead0(Bits(b))
I64Of(n) ==           \* -2^31 < n < 2^31
  LET neg == n < 0
      u == IF neg THEN -(n + 1) ELSE n
      byt == <<0, 0, 0, 0, u \div 16777216, (u \div 65536) % 256, (u \div 256) % 256, u % 256>>
  IN IF neg THEN [i \in 1..8 |-> 255 - byt[i]] ELSE byt
I64Zero == Zeros(8)
I64One == I64Of(1)
(* signed magnitude (bits) -> I64; the caller ensures the range *)
I64OfMag(neg, mag) ==
  LET full == Zeros(64 - Len(mag)) \o mag
  IN IF neg THEN OfBits(LET r == IncBits(NotBits(full)) IN r.bits) ELSE OfBits(full)
I64InRange(neg, mag) == Len(mag) <= 63 \/ (neg /\ Len(mag) = 64 /\ \A i \in 2..64 : mag[i] = 0)
(* decimal text of an integer as bytes *)
I64Text(b) == (IF I64Neg(b) THEN <<45>> ELSE <<>>)
              \o LET ds == NatDigits(NatOfBits(I64Mag(b))) IN [i \in 1..Len(ds) |-> ds[i] + 48]
(* small integer value, if it fits 31 bits *)
I64IsSmall(b) == LET m == I64Mag(b) IN Len(m) <= 31
I64Small(b) == LET m == BitsVal(I64Mag(b)) IN IF I64Neg(b) THEN -m ELSE m
I64Positive(b) == ~I64Neg(b) /\ \E i \in 1..8 : b[i] # 0

(* digits (0..9) with a sign: in range?, value *)
IntOfDigits(neg, ds) ==
  LET mag == NatBits(NatOfDigits(ds))
  IN IF I64InRange(neg, mag) THEN [ok |-> TRUE, i |-> I64OfMag(neg, mag)] ELSE [ok |-> FALSE]

----------------------------------------------------------------------------
(* IEEE-754: rounding a non-zero magnitude 1.xxx * 2^e given by its bits    *)
(* (leading 1 first) plus a sticky flag, to nearest, ties to even           *)
FFormat == [f64 |-> [p |-> 53, emin |-> -1022, emax |-> 1023, ew |-> 11, w |-> 64],
            f32 |-> [p |-> 24, emin |-> -126, emax |-> 127, ew |-> 8, w |-> 32]]
RoundF(neg, bits, e, sticky, F) ==
  LET avail == IF e >= F.emin THEN F.p ELSE Max2(F.p - (F.emin - e), -1)
      s0 == <<IF neg THEN 1 ELSE 0>>
      \* exactly F.p+1 bits: (F.p - avail) leading zeros for subnormals
      lead == IF avail = -1 THEN F.p + 1 ELSE F.p - avail
      ext == Zeros(lead) \o bits \o Zeros(F.p + 2)
      m == Take(ext, F.p)
      guard == ext[F.p + 1]
      rest == sticky \/ \E i \in (F.p + 2)..Len(ext) : ext[i] = 1
      up == guard = 1 /\ (rest \/ m[F.p] = 1)
      inc == IF up THEN IncBits(m) ELSE [carry |-> FALSE, bits |-> m]
      e1 == IF e >= F.emin THEN e ELSE F.emin
      e2 == IF inc.carry THEN e1 + 1 ELSE e1
      mm == IF inc.carry THEN <<1>> \o Zeros(F.p - 1) ELSE inc.bits
      bexp == IF mm[1] = 0 THEN 0 ELSE e2 + F.emax
  IN IF e2 > F.emax THEN OfBits(s0 \o Ones(F.ew) \o Zeros(F.p - 1))
     ELSE OfBits(s0 \o IntBits(bexp, F.ew) \o Drop(mm, 1))

FParts(b, F) ==
  LET x == Bits(b)
      be == BitsVal(SubSeq(x, 2, 1 + F.ew))
      frac == Drop(x, 1 + F.ew)
      allone == be = 2 ^ F.ew - 1
      sig == IF be = 0 THEN frac ELSE <<1>> \o frac
      z == FirstIdx(sig, LAMBDA q : q = 1)
      e == IF be = 0 THEN F.emin - z ELSE be - F.emax    \* exponent of the leading 1
  IN [neg |-> x[1] = 1,
      cls |-> IF allone THEN (IF \E i \in 1..Len(frac) : frac[i] = 1 THEN "nan" ELSE "inf")
              ELSE IF z = 0 THEN "zero" ELSE "fin",
      bits |-> IF z = 0 THEN <<>> ELSE Drop(sig, z - 1),
      e |-> IF z = 0 THEN 0 ELSE e]

D64(b) == FParts(b, FFormat.f64)
F32(b) == FParts(b, FFormat.f32)
DZero == Zeros(8)
DNegZero == <<128>> \o Zeros(7)
DInf(neg) == <<IF neg THEN 255 ELSE 127, 240>> \o Zeros(6)
FInf(neg) == <<IF neg THEN 255 ELSE 127, 128, 0, 0>>
FZero(neg) == <<IF neg THEN 128 ELSE 0, 0, 0, 0>>
DNaN == <<127, 248, 0, 0, 0, 0, 0, 1>>      \* Go's NaN
IsNaN8(b) == D64(b).cls = "nan"
IsFinite8(b) == D64(b).cls \in {"zero", "fin"}
IsFinite4(b) == F32(b).cls \in {"zero", "fin"}

F32ToF64(b) ==
  LET p == F32(b) IN
  CASE p.cls = "zero" -> IF p.neg THEN DNegZero ELSE DZero
    [] p.cls = "inf" -> DInf(p.neg)
    [] p.cls = "nan" -> DNaN
    [] OTHER -> RoundF(p.neg, p.bits, p.e, FALSE, FFormat.f64)
F64ToF32(b) ==
  LET p == D64(b) IN
  CASE p.cls = "zero" -> FZero(p.neg)
    [] p.cls = "inf" -> FInf(p.neg)
    [] p.cls = "nan" -> <<127, 192, 0, 0>>
    [] OTHER -> RoundF(p.neg, p.bits, p.e, FALSE, FFormat.f32)
I64ToF64(b) == LET m == I64Mag(b) IN IF m = <<>> THEN DZero
               ELSE RoundF(I64Neg(b), m, Len(m) - 1, FALSE, FFormat.f64)
I64ToF32(b) == LET m == I64Mag(b) IN IF m = <<>> THEN FZero(FALSE)
               ELSE RoundF(I64Neg(b), m, Len(m) - 1, FALSE, FFormat.f32)
(* truncation toward zero; ok is FALSE where Go's conversion is not defined *)
PartsToI64(p) ==
  IF p.cls \in {"nan", "inf"} THEN [ok |-> FALSE]
  ELSE IF p.cls = "zero" \/ p.e < 0 THEN [ok |-> TRUE, i |-> I64Zero]
  ELSE IF p.e > 63 THEN [ok |-> FALSE]
  ELSE LET mag == Take(p.bits \o Zeros(64), p.e + 1)
       IN IF I64InRange(p.neg, mag) THEN [ok |-> TRUE, i |-> I64OfMag(p.neg, mag)] ELSE [ok |-> FALSE]
F64ToI64(b) == PartsToI64(D64(b))
F32ToI64(b) == PartsToI64(F32(b))
(* > 0 *)
F64Positive(b) == LET p == D64(b) IN ~p.neg /\ p.cls \in {"fin", "inf"}

(* value * 2^k as a small integer, when it is one (|v| < 2^31) *)
ScaledSmall(b, k) ==
  LET p == D64(b) IN
  IF p.cls = "zero" THEN [ok |-> TRUE, n |-> 0]
  ELSE IF p.cls # "fin" \/ p.e + k > 30 \/ p.e + k < 0 THEN [ok |-> FALSE]
  ELSE LET n == p.e + k + 1
           top == Take(p.bits \o Zeros(64), n)
           low == Drop(p.bits, Min2(n, Len(p.bits)))
       IN IF \E i \in 1..Len(low) : low[i] = 1 THEN [ok |-> FALSE]
          ELSE [ok |-> TRUE, n |-> IF p.neg THEN -BitsVal(top) ELSE BitsVal(top)]
(* n / 2^k as a double *)
ScaledF64(n, k) == IF n = 0 THEN DZero ELSE
  LET m == StripLead0(IntBits(IF n < 0 THEN -n ELSE n, 31))
  IN RoundF(n < 0, m, Len(m) - 1 - k, FALSE, FFormat.f64)

----------------------------------------------------------------------------
(* decimal text -> nearest double: digits * 10^e10                          *)
RECURSIVE DivBits(_, _, _, _)
(* r < den: the next n quotient bits *)
DivBits(r, den, n, acc) ==
  IF n = 0 \/ r = <<>> THEN [bits |-> acc, sticky |-> r # <<>>]
  ELSE LET r2 == NatMulAdd(r, 2, 0)
       IN IF NatLess(r2, den) THEN DivBits(r2, den, n - 1, Append(acc, 0))
          ELSE DivBits(NatSub(r2, den), den, n - 1, Append(acc, 1))
DecToF(neg, ds, e10, F) ==
  LET sds == StripLead0(ds)
      num0 == NatOfDigits(sds)
  IN IF sds = <<>> THEN OfBits(<<IF neg THEN 1 ELSE 0>> \o Zeros(F.w - 1))
     ELSE IF e10 >= 0 THEN
        LET b == NatBits(NatPow10Mul(num0, e10))
        IN RoundF(neg, b, Len(b) - 1, FALSE, F)
     ELSE
        LET den0 == NatPow10Mul(<<1>>, -e10)
            k == Len(NatBits(num0)) - Len(NatBits(den0))
            \* scale so that 1/2 < num/den < 2
            num == IF k < 0 THEN NatShl(num0, -k) ELSE num0
            den == IF k > 0 THEN NatShl(den0, k) ELSE den0
            lt == NatLess(num, den)
            num2 == IF lt THEN NatMulAdd(num, 2, 0) ELSE num
            e == IF lt THEN k - 1 ELSE k
            q == DivBits(NatSub(num2, den), den, F.p + 2, <<1>>)
        IN RoundF(neg, q.bits, e, q.sticky, F)
DecToF64(neg, ds, e10) == DecToF(neg, ds, e10, FFormat.f64)
=============================================================================
