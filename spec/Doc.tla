-------------------------------- MODULE Doc --------------------------------
(***************************************************************************)
(* Abstract documents.  A document is a record with a tag t and a payload: *)
(*   obj kv : sequence of [k |-> bytes, v |-> document], keys unique       *)
(*   arr el : sequence of documents                                        *)
(*   str s  : bytes (the unescaped text)                                   *)
(*   int i / tsp i : 64-bit integer (tsp: BSON timestamp)                  *)
(*   flt f / dbl d / dt d : IEEE-754 single, double, date-time (days since *)
(*            1899-12-30 as a double)                                      *)
(*   bin b, oid b, dec b : binaries (plain, BSON object id, decimal128)    *)
(*   ext x b : MsgPack extension, sub x b : BSON binary with a subtype     *)
(*   null true false nan inf : the shared constants                        *)
(***************************************************************************)
EXTENDS Utf8

Obj(kv) == [t |-> "obj", kv |-> kv]
Arr(el) == [t |-> "arr", el |-> el]
Str(s) == [t |-> "str", s |-> s]
IntD(i) == [t |-> "int", i |-> i]
Flt(f) == [t |-> "flt", f |-> f]
Dbl(d) == [t |-> "dbl", d |-> d]
Dt(d) == [t |-> "dt", d |-> d]
Bin(b) == [t |-> "bin", b |-> b]
Ext(x, b) == [t |-> "ext", x |-> x, b |-> b]
Const(k) == [t |-> k]
Consts == {"null", "true", "false", "nan", "inf"}
IsCont(d) == d.t \in {"obj", "arr"}

(* a fresh value of a type *)
Zero(k) == CASE k = "obj" -> Obj(<<>>)
             [] k = "arr" -> Arr(<<>>)
             [] k = "str" -> Str(<<>>)
             [] k = "int" -> IntD(I64Zero)
             [] k = "flt" -> Flt(Zeros(4))
             [] k = "dbl" -> Dbl(DZero)
             [] k = "dt" -> Dt(DZero)
             [] k = "bin" -> Bin(<<>>)
             [] k = "ext" -> Ext(0, <<>>)
             [] OTHER -> Const(k)

----------------------------------------------------------------------------
(* keys: exact, or equal up to letter case: the simple case folding of Unicode for Latin, Greek, Cyrillic and
   full-width letters (the letters in these blocks that fold in other ways are outside the specification) *)
FoldCp(c) ==
  IF c < 128 THEN (IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c)
  ELSE IF c >= 192 /\ c <= 222 /\ c # 215 THEN c + 32
  ELSE IF c = 181 THEN 956                                                     \* micro sign, mu
  ELSE IF (c >= 256 /\ c <= 303) \/ (c >= 330 /\ c <= 375) THEN c + ((c + 1) % 2)
  ELSE IF c >= 313 /\ c <= 328 THEN c + (c % 2)
  ELSE IF c = 376 THEN 255
  ELSE IF c = 383 THEN 115                                                     \* long s
  ELSE IF c >= 913 /\ c <= 939 /\ c # 930 THEN c + 32
  ELSE IF c = 962 THEN 963                                                     \* final sigma
  ELSE IF c >= 1040 /\ c <= 1071 THEN c + 32
  ELSE IF c >= 1024 /\ c <= 1039 THEN c + 80
  ELSE IF c = 7838 THEN 223                                                    \* capital sharp s
  ELSE IF c = 8490 THEN 107                                                    \* Kelvin
  ELSE IF c = 8491 THEN 229                                                    \* Angstrom
  ELSE IF c >= 65313 /\ c <= 65338 THEN c + 32
  ELSE c
(* the code points of well-formed text; anything else stays as it is *)
RECURSIVE CpsFrom(_, _)
CpsFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET n == Utf8Len(s, i)
           m(j) == s[i + j] % 64
           c == CASE n = 2 -> (s[i] % 32) * 64 + m(1)
                  [] n = 3 -> (s[i] % 16) * 4096 + m(1) * 64 + m(2)
                  [] n = 4 -> (s[i] % 8) * 262144 + m(1) * 4096 + m(2) * 64 + m(3)
                  [] OTHER -> s[i]
       IN <<c>> \o CpsFrom(s, i + Max2(n, 1))
FoldKey(k) ==
  IF \A i \in 1..Len(k) : k[i] < 128 THEN [i \in 1..Len(k) |-> FoldCp(k[i])]
  ELSE LET c == CpsFrom(k, 1) IN [i \in 1..Len(c) |-> FoldCp(c[i])]
KeyEq(a, b, ic) == a = b \/ (ic /\ FoldKey(a) = FoldKey(b))
KeyIdx(kv, k, ic) == FirstIdx(kv, LAMBDA m : KeyEq(m.k, k, ic))
KeysUnique(kv) == \A i, j \in 1..Len(kv) : i # j => kv[i].k # kv[j].k

(* decimal integer text as used for array positions and integer reads *)
IsDigit(c) == c >= 48 /\ c <= 57
AllDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : IsDigit(s[i])
DigitsOf(s) == [i \in 1..Len(s) |-> s[i] - 48]
TextInt(s) ==
  LET neg == s # <<>> /\ s[1] = 45
      ds == IF neg THEN Tail(s) ELSE s
  IN IF ~AllDigits(ds) THEN [ok |-> FALSE] ELSE IntOfDigits(neg, DigitsOf(ds))
(* a name as array index (0-based); -1 when it is not a number *)
NameIndex(s) == LET r == TextInt(s)
                IN IF ~r.ok THEN -1 ELSE IF I64IsSmall(r.i) THEN I64Small(r.i)
                   ELSE IF I64Neg(r.i) THEN -2 ELSE 2147483647

None == [ok |-> FALSE]
Some(v) == [ok |-> TRUE, v |-> v]
ByIndex(d, i) ==    \* 0-based position
  IF d.t = "obj" /\ i >= 0 /\ i < Len(d.kv) THEN Some(d.kv[i + 1].v)
  ELSE IF d.t = "arr" /\ i >= 0 /\ i < Len(d.el) THEN Some(d.el[i + 1])
  ELSE None
ByName(d, k, ic) ==
  CASE d.t = "obj" -> LET i == KeyIdx(d.kv, k, ic) IN IF i = 0 THEN None ELSE Some(d.kv[i].v)
    [] d.t = "arr" -> ByIndex(d, NameIndex(k))
    [] OTHER -> None
RECURSIVE ByPath(_, _, _)
ByPath(d, p, ic) == IF p = <<>> THEN Some(d)
                    ELSE LET c == ByName(d, Head(p), ic)
                         IN IF c.ok THEN ByPath(c.v, Tail(p), ic) ELSE None
CountOf(d) == CASE d.t = "obj" -> Len(d.kv) [] d.t = "arr" -> Len(d.el) [] OTHER -> 0

RECURSIVE Size(_)
Size(d) == CASE d.t = "obj" -> 1 + FoldLeft(LAMBDA a, m : a + Size(m.v), 0, d.kv)
             [] d.t = "arr" -> 1 + FoldLeft(LAMBDA a, m : a + Size(m), 0, d.el)
             [] OTHER -> 1
RECURSIVE Nodes(_)
Nodes(d) == CASE d.t = "obj" -> <<d>> \o FlattenSeq([i \in 1..Len(d.kv) |-> Nodes(d.kv[i].v)])
              [] d.t = "arr" -> <<d>> \o FlattenSeq([i \in 1..Len(d.el) |-> Nodes(d.el[i])])
              [] OTHER -> <<d>>
AllNodes(d, P(_)) == LET ns == Nodes(d) IN \A i \in 1..Len(ns) : P(ns[i])
WellFormed(d) == AllNodes(d, LAMBDA n : n.t = "obj" => KeysUnique(n.kv))
HasNaN(d) == ~AllNodes(d, LAMBDA n : ~(n.t = "nan" \/ (n.t \in {"dbl", "dt"} /\ IsNaN8(n.d))
                                       \/ (n.t = "flt" /\ F32(n.f).cls = "nan")))

----------------------------------------------------------------------------
(* equality *)
BinLike(t) == t \in {"bin", "oid", "dec"}
ExtLike(t) == t \in {"ext", "sub"}
NumLike(t) == t \in {"int", "tsp", "flt", "dbl"}
AsDouble(d) == CASE d.t \in {"int", "tsp"} -> I64ToF64(d.i)
                 [] d.t = "flt" -> F32ToF64(d.f)
                 [] OTHER -> d.d
F64Eq(a, b) == ~IsNaN8(a) /\ ~IsNaN8(b) /\ (a = b \/ (D64(a).cls = "zero" /\ D64(b).cls = "zero"))
RECURSIVE EqDoc(_, _)
EqDoc(a, b) ==
  CASE a.t = "obj" -> b.t = "obj" /\ Len(a.kv) = Len(b.kv)
                      /\ \A i \in 1..Len(a.kv) : a.kv[i].k = b.kv[i].k /\ EqDoc(a.kv[i].v, b.kv[i].v)
    [] a.t = "arr" -> b.t = "arr" /\ Len(a.el) = Len(b.el)
                      /\ \A i \in 1..Len(a.el) : EqDoc(a.el[i], b.el[i])
    [] BinLike(a.t) -> BinLike(b.t) /\ a.b = b.b
    [] ExtLike(a.t) -> ExtLike(b.t) /\ a.x = b.x /\ a.b = b.b
    [] NumLike(a.t) /\ NumLike(b.t) ->
         IF a.t \in {"int", "tsp"} /\ b.t \in {"int", "tsp"} THEN a.i = b.i
         ELSE IF a.t = b.t THEN a = b
         ELSE F64Eq(AsDouble(a), AsDouble(b))
    [] OTHER -> a = b

----------------------------------------------------------------------------
(* calendar: days relative to 1970-01-01 *)
CivilOfDays(z0) ==
  LET z == z0 + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
      doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
      mp == (5 * doy + 2) \div 153
      dd == doy - ((153 * mp + 2) \div 5) + 1
      mm == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN [y |-> yoe + era * 400 + (IF mm <= 2 THEN 1 ELSE 0), m |-> mm, d |-> dd]
DaysOfCivil(y0, m, d) ==
  LET y == IF m <= 2 THEN y0 - 1 ELSE y0
      era == y \div 400
      yoe == y - era * 400
      doy == ((153 * (IF m > 2 THEN m - 3 ELSE m + 9) + 2) \div 5) + d - 1
      doe == yoe * 365 + (yoe \div 4) - (yoe \div 100) + doy
  IN era * 146097 + doe - 719468
Dig2(n) == <<48 + (n \div 10), 48 + (n % 10)>>
Dig4(n) == Dig2(n \div 100) \o Dig2(n % 100)
(* a date-time that is a multiple of 1/1024 day between 1900 and 2150 *)
DtParts(d8) ==
  LET r == ScaledSmall(d8, 10)
  IN IF ~r.ok \/ r.n < 0 \/ r.n > 94000 * 1024 THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, day |-> (r.n \div 1024) - 25569, ms |-> (r.n % 1024) * 84375]
DtText(p) == LET c == CivilOfDays(p.day)
                 s == p.ms \div 1000
             IN Dig4(c.y) \o <<45>> \o Dig2(c.m) \o <<45>> \o Dig2(c.d) \o <<32>>
                \o Dig2(s \div 3600) \o <<58>> \o Dig2((s \div 60) % 60) \o <<58>> \o Dig2(s % 60)
(* seconds since 1970 as an integer value *)
NatMul(a, n) == NatMulAdd(a, n, 0)
NatSmall(n) == NatMulAdd(<<>>, 1, 0) \o (IF n = 0 THEN <<>> ELSE NatOfBits(StripLead0(IntBits(n, 31))))
NatAdd(a, b) ==
  LET n == Max2(Len(a), Len(b))
      g(x, i) == IF i <= Len(x) THEN x[i] ELSE 0
      st == FoldLeft(LAMBDA s, i : LET t == g(a, i) + g(b, i) + s.c
                                   IN [c |-> t \div BB, r |-> Append(s.r, t % BB)],
                     [c |-> 0, r |-> <<>>], [i \in 1..n |-> i])
  IN NatTrim(IF st.c > 0 THEN Append(st.r, st.c) ELSE st.r)
(* n*m + a for a signed small n, unsigned small m, a: as a signed number [neg, nat] *)
LinSigned(n, muls, a) ==
  LET mag0 == FoldLeft(LAMBDA x, m : NatMul(x, m), NatSmall(IF n < 0 THEN -n ELSE n), muls)
      an == NatSmall(a)
  IN IF n >= 0 THEN [neg |-> FALSE, nat |-> NatAdd(mag0, an)]
     ELSE IF NatLess(mag0, an) THEN [neg |-> FALSE, nat |-> NatSub(an, mag0)]
     ELSE [neg |-> TRUE, nat |-> NatSub(mag0, an)]
SignedI64(x) == I64OfMag(x.neg /\ x.nat # <<>>, NatBits(x.nat))
UnixSec(p) == SignedI64(LinSigned(p.day, <<240, 360>>, p.ms \div 1000))
UnixMs(p) == SignedI64(LinSigned(p.day, <<240, 360, 1000>>, p.ms))

(* date text in one of the three accepted layouts *)
Num2(s, i) == (s[i] - 48) * 10 + (s[i + 1] - 48)
DaysInMonth(y, m) == CASE m \in {4, 6, 9, 11} -> 30
                       [] m = 2 -> IF (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0 THEN 29 ELSE 28
                       [] OTHER -> 31
TextDate(s) ==
  IF Len(s) \notin {19, 20} THEN [ok |-> FALSE]
  ELSE LET shape(a, b, z) == /\ s[5] = a /\ s[8] = a /\ s[11] = b /\ s[14] = 58 /\ s[17] = 58
                             /\ (IF z THEN Len(s) = 20 /\ s[20] = 90 ELSE Len(s) = 19)
           dig == \A i \in {1, 2, 3, 4, 6, 7, 9, 10, 12, 13, 15, 16, 18, 19} : IsDigit(s[i])
       IN IF ~dig \/ ~(shape(45, 84, TRUE) \/ shape(45, 32, FALSE) \/ shape(47, 32, FALSE)) THEN [ok |-> FALSE]
          ELSE LET y == Num2(s, 1) * 100 + Num2(s, 3)
                   m == Num2(s, 6)
                   d == Num2(s, 9)
                   H == Num2(s, 12)
                   M == Num2(s, 15)
                   S == Num2(s, 18)
               IN IF m < 1 \/ m > 12 \/ d < 1 \/ d > DaysInMonth(y, m) \/ H > 23 \/ M > 59 \/ S > 59
                  THEN [ok |-> FALSE]
                  ELSE [ok |-> TRUE, day |-> DaysOfCivil(y, m, d), ms |-> (H * 3600 + M * 60 + S) * 1000]

----------------------------------------------------------------------------
(* typed reads; def is FALSE outside the specified domain *)
Known(v) == [def |-> TRUE, v |-> v]
Unknown == [def |-> FALSE]
(* decimal text of a float: -?digits(.digits)?([eE][+-]?digits)? *)
SpanDigits(s, i) ==   \* first index >= i that is not a digit
  LET S == {j \in i..Len(s) : ~IsDigit(s[j])}
  IN IF S = {} THEN Len(s) + 1 ELSE CHOOSE j \in S : \A k \in S : j <= k
SmallOf(ds) == FoldLeft(LAMBDA a, d : IF a > 100000 THEN a ELSE a * 10 + d, 0, ds)
DecText(s, i0) ==     \* parse from i0: [ok, neg, ds, e10, next, frac]
  LET neg == i0 <= Len(s) /\ s[i0] = 45
      i1 == IF neg THEN i0 + 1 ELSE i0
      i2 == SpanDigits(s, i1)
      hasf == i2 < Len(s) /\ s[i2] = 46 /\ IsDigit(s[i2 + 1])
      i3 == IF hasf THEN SpanDigits(s, i2 + 1) ELSE i2
      hase0 == i3 < Len(s) /\ s[i3] \in {101, 69}
      sgn == hase0 /\ s[i3 + 1] \in {43, 45}
      ie == IF sgn THEN i3 + 2 ELSE i3 + 1
      hase == hase0 /\ ie <= Len(s) /\ IsDigit(s[ie])
      i4 == IF hase THEN SpanDigits(s, ie) ELSE i3
      ex == IF ~hase THEN 0 ELSE LET x == SmallOf(DigitsOf(SubSeq(s, ie, i4 - 1)))
                                 IN IF s[i3 + 1] = 45 THEN -x ELSE x
  IN IF i2 = i1 THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, neg |-> neg, frac |-> hasf \/ hase, next |-> i4,
           ip |-> SubSeq(s, i1, i2 - 1),
           hasf |-> hasf, hase |-> hase, ex |-> ex,
           ds |-> DigitsOf(SubSeq(s, i1, i2 - 1)
                           \o (IF hasf THEN SubSeq(s, i2 + 1, i3 - 1) ELSE <<>>)),
           e10 |-> ex - (IF hasf THEN i3 - i2 - 1 ELSE 0)]
(* text without any digit and not of the not-a-number kind is no number *)
NoNumber(s) == s = <<>> \/ (s[1] \notin {43, 45, 46} /\ ~IsDigit(s[1])
                             /\ FoldKey(s) \notin {<<105, 110, 102>>, <<110, 97, 110>>})
TextF64(s) ==
  LET r == DecText(s, 1)
  IN IF NoNumber(s) THEN Known(DZero)     \* unparsable text
     ELSE IF ~r.ok THEN Unknown
     ELSE IF r.next <= Len(s) THEN (IF s[r.next] \in {46, 69, 101} THEN Unknown ELSE Known(DZero))
     ELSE IF Len(r.ds) > 15 \/ r.e10 < -22 \/ r.e10 > 22 \/ (r.hase /\ (r.hasf \/ r.ex < 0)) THEN Unknown
     ELSE Known(DecToF64(r.neg, r.ds, r.e10))
OfConv(r) == IF r.ok THEN Known(r.i) ELSE Unknown
ReadInt(d) ==
  CASE d.t = "true" -> Known(I64One)
    [] d.t \in {"int", "tsp"} -> Known(d.i)
    [] d.t \in {"dbl", "dt"} -> OfConv(F64ToI64(d.d))
    [] d.t = "flt" -> OfConv(F32ToI64(d.f))
    [] d.t = "str" -> LET r == TextInt(d.s) IN Known(IF r.ok THEN r.i ELSE I64Zero)
    [] OTHER -> Known(I64Zero)
DOne == <<63, 240>> \o Zeros(6)
ReadDouble(d) ==
  CASE d.t = "true" -> Known(DOne)
    [] d.t \in {"int", "tsp", "flt"} -> Known(AsDouble(d))
    [] d.t \in {"dbl", "dt"} -> Known(d.d)
    [] d.t = "str" -> TextF64(d.s)
    [] OTHER -> Known(DZero)
ReadFloat(d) ==
  CASE d.t = "true" -> Known(<<63, 128, 0, 0>>)
    [] d.t \in {"int", "tsp"} -> Known(I64ToF32(d.i))
    [] d.t = "flt" -> Known(d.f)
    [] d.t \in {"dbl", "dt"} -> IF IsNaN8(d.d) THEN Unknown ELSE Known(F64ToF32(d.d))
    [] d.t = "str" -> LET r == TextF64(d.s) IN IF r.def THEN Known(F64ToF32(r.v)) ELSE Unknown
    [] OTHER -> Known(Zeros(4))
LowerTrue == <<116, 114, 117, 101>>
ReadBool(d) ==
  CASE d.t = "true" -> Known(TRUE)
    [] d.t \in {"int", "tsp"} -> Known(I64Positive(d.i))
    [] d.t \in {"dbl", "dt"} -> Known(F64Positive(d.d))
    [] d.t = "flt" -> Known(F64Positive(F32ToF64(d.f)))
    [] d.t = "str" -> Known(Len(d.s) = 4 /\ FoldKey(d.s) = LowerTrue)
    [] OTHER -> Known(FALSE)
NoDate == <<191, 240>> \o Zeros(6)         \* -1.0
ReadDateTime(d) ==
  CASE d.t \in {"int", "tsp", "flt"} -> Known(AsDouble(d))
    [] d.t \in {"dbl", "dt"} -> Known(d.d)
    [] d.t = "str" -> LET p == TextDate(d.s)
                      IN IF ~p.ok THEN Known(NoDate)
                         ELSE IF p.day < -25567 \/ p.day > 60000 \/ p.ms % 675000 # 0 THEN Unknown
                         ELSE Known(ScaledF64((p.day + 25569) * 128 + (p.ms \div 675000), 7))
    [] OTHER -> Known(NoDate)
ZeroTime == [day |-> -719162, ms |-> 0, ns |-> 0]
ReadGoTime(d) ==
  CASE d.t \in {"int", "tsp", "flt", "dbl", "dt"} ->
         LET p == DtParts(IF d.t \in {"dbl", "dt"} THEN d.d ELSE AsDouble(d))
         IN IF p.ok THEN Known([day |-> p.day, ms |-> p.ms, ns |-> 0]) ELSE Unknown
    [] d.t = "str" -> LET p == TextDate(d.s)
                      IN Known(IF p.ok THEN [day |-> p.day, ms |-> p.ms, ns |-> 0] ELSE ZeroTime)
    [] OTHER -> Known(ZeroTime)

(* durations: ("-"|"+")? (digits unit)+ , units h m s ms us ns; "0" *)
UnitNs(u) == CASE u = <<104>> -> <<3600, 1000, 1000, 1000>>
               [] u = <<109>> -> <<60, 1000, 1000, 1000>>
               [] u = <<115>> -> <<1000, 1000, 1000>>
               [] u = <<109, 115>> -> <<1000, 1000>>
               [] u = <<117, 115>> -> <<1000>>
               [] u = <<110, 115>> -> <<>>
               [] OTHER -> <<0>>
RECURSIVE DurParts(_, _, _)
DurParts(s, i, acc) ==
  IF i > Len(s) THEN [ok |-> TRUE, nat |-> acc]
  ELSE LET j == SpanDigits(s, i)
           S == {k \in j..Len(s) : IsDigit(s[k])}
           e == IF S = {} THEN Len(s) + 1 ELSE CHOOSE k \in S : \A q \in S : k <= q
           u == UnitNs(SubSeq(s, j, e - 1))
       IN IF j = i \/ u = <<0>> THEN [ok |-> FALSE]
          ELSE DurParts(s, e, NatAdd(acc, FoldLeft(LAMBDA a, m : NatMul(a, m),
                                             NatOfDigits(DigitsOf(SubSeq(s, i, j - 1))), u)))
TextDuration(s) ==
  LET neg == s # <<>> /\ s[1] = 45
      i == IF s # <<>> /\ s[1] \in {43, 45} THEN 2 ELSE 1
  IN IF i <= Len(s) /\ SubSeq(s, i, Len(s)) = <<48>> THEN [ok |-> TRUE, nat |-> <<>>, neg |-> FALSE]
     ELSE IF i > Len(s) THEN [ok |-> FALSE]
     ELSE LET r == DurParts(s, i, <<>>) IN IF ~r.ok THEN [ok |-> FALSE]
          ELSE [ok |-> TRUE, nat |-> r.nat, neg |-> neg]
(* dots make fractions, which this specification leaves open *)
ReadDuration(d, dflt) ==
  CASE d.t \in {"int", "tsp"} -> Known(d.i)
    [] d.t = "str" -> IF \E i \in 1..Len(d.s) : d.s[i] = 46 \/ d.s[i] > 127 THEN Unknown
                      ELSE LET r == TextDuration(d.s)
                           IN IF ~r.ok THEN Known(dflt)
                              ELSE IF Len(NatBits(r.nat)) > 62 THEN Unknown
                              ELSE Known(SignedI64([neg |-> r.neg, nat |-> r.nat]))
    [] OTHER -> Known(dflt)

----------------------------------------------------------------------------
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
HexText(b) == FlattenSeq([i \in 1..Len(b) |-> <<HexDigit(b[i] \div 16), HexDigit(b[i] % 16)>>])
BinText(d) ==
  CASE d.t = "oid" -> <<123,34,36,111,105,100,34,58,34>> \o HexText(d.b) \o <<34,125>>
    [] d.t = "dec" -> <<123,34,68,101,99,105,109,97,108,49,50,56,34,58,34>> \o HexText(d.b) \o <<34,125>>
    [] OTHER -> <<66,105,110,40>> \o HexText(d.b) \o <<41>>
(* a finite double as text: any decimal form that denotes exactly this double *)
FloatTextOk(s, d8) ==
  LET p == D64(d8) IN
  IF p.cls = "nan" THEN s = <<78, 97, 78>>
  ELSE IF p.cls = "inf" THEN s = (IF p.neg THEN <<45>> ELSE <<43>>) \o <<73, 110, 102>>
  ELSE LET r == DecText(s, 1)
       IN r.ok /\ r.next = Len(s) + 1 /\ DecToF64(r.neg, r.ds, r.e10) = d8
=============================================================================
