-------------------------------- MODULE JsonText --------------------------------
(***************************************************************************)
(* JSON (RFC 8259).  JsonClass(s) says what decoding the bytes s must give: *)
(*   doc : s is valid JSON and denotes d                                    *)
(*   err : s is not structurally valid JSON                                 *)
(*   any : s lies in the tolerated margin (non-standard numbers and         *)
(*         literals, unchecked string contents, duplicate keys, other uses  *)
(*         of the Date() notation, numbers beyond the double range)         *)
(* The document may hold jdate leaves, which NearDoc compares.              *)
(* JsonOutOk(s, d, ...) says that the text s is a valid encoding of d.      *)
(***************************************************************************)
EXTENDS DocOps, Utf8

IsWs(c) == c \in {32, 9, 10, 13}
RECURSIVE SkipWs(_, _)
SkipWs(s, i) == IF i <= Len(s) /\ IsWs(s[i]) THEN SkipWs(s, i + 1) ELSE i
At(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
Fail == [ok |-> FALSE]
(* strict: valid by the RFC; odd: valid, but outside what the reader is specified for *)
Ok(d, n, strict, odd) == [ok |-> TRUE, d |-> d, n |-> n, strict |-> strict, odd |-> odd]

(* strings: position of the closing quote, 0 if there is none *)
RECURSIVE StrEnd(_, _)
StrEnd(s, i) == IF i + 63 <= Len(s) /\ \A j \in i..(i + 63) : s[j] \notin {34, 92} THEN StrEnd(s, i + 64)
                ELSE IF i > Len(s) THEN 0
                ELSE IF s[i] = 34 THEN i
                ELSE IF s[i] = 92 THEN StrEnd(s, i + 2)
                ELSE StrEnd(s, i + 1)
HexVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48
             ELSE IF c >= 97 /\ c <= 102 THEN c - 87
             ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
Hex4(r, i) == IF i + 3 > Len(r) \/ \E j \in i..(i + 3) : HexVal(r[j]) < 0 THEN -1
              ELSE ((HexVal(r[i]) * 16 + HexVal(r[i + 1])) * 16 + HexVal(r[i + 2])) * 16 + HexVal(r[i + 3])
SimpleEsc(c) == CASE c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] c = 98 -> 8 [] c = 102 -> 12
                  [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> -1
RECURSIVE Unesc(_, _, _)
Unesc(r, i, acc) ==     \* [ok, s]; not ok for a non-standard escape or a lone surrogate
  IF i > Len(r) THEN [ok |-> TRUE, s |-> acc]
  ELSE IF r[i] # 92 THEN Unesc(r, i + 1, Append(acc, r[i]))
  ELSE LET c == At(r, i + 1) IN
    IF SimpleEsc(c) >= 0 THEN Unesc(r, i + 2, Append(acc, SimpleEsc(c)))
    ELSE IF c # 117 THEN [ok |-> FALSE]
    ELSE LET u == Hex4(r, i + 2) IN
      IF u < 0 \/ (u >= 56320 /\ u <= 57343) THEN [ok |-> FALSE]
      ELSE IF u < 55296 \/ u > 57343 THEN Unesc(r, i + 6, acc \o Utf8Of(u))
      ELSE LET lo == IF At(r, i + 6) = 92 /\ At(r, i + 7) = 117 THEN Hex4(r, i + 8) ELSE -1
           IN IF lo < 56320 \/ lo > 57343 THEN [ok |-> FALSE]
              ELSE Unesc(r, i + 12, acc \o Utf8Of(65536 + (u - 55296) * 1024 + (lo - 56320)))
HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
DateMark == <<68, 97, 116, 101, 40>>          \* Date(
LooksDate(s) == HasPrefix(s, DateMark) \/ HasPrefix(s, <<47>> \o DateMark)
(* the date literals Date(ms) and /Date(ms)/ with 10 to 13 digits: the digits, <<>> for any other text *)
DateDigits(s) ==
  LET a == IF HasPrefix(s, DateMark) /\ s[Len(s)] = 41 THEN SubSeq(s, 6, Len(s) - 1)
           ELSE IF HasPrefix(s, <<47>> \o DateMark) /\ Len(s) >= 8 /\ s[Len(s) - 1] = 41 /\ s[Len(s)] = 47
                THEN SubSeq(s, 7, Len(s) - 2) ELSE <<>>
  IN IF Len(a) \in 10..13 /\ AllDigits(a) /\ (Len(a) = 13 => a[1] < 53) THEN a ELSE <<>>
(* such a literal denotes the date-time of that second; the time within the second is open *)
JDate(text) == [t |-> "jdate", s |-> text]
SecOfDate(s) == LET ds == DigitsOf(DateDigits(s)) IN NatOfDigits(Take(ds, Len(ds) - 3))
NearSec(d8, sec) ==
  LET p == D64(d8)
      nb == NatBits(NatMul(NatOfBits(p.bits), 86400))
      q == NatOfBits(Take(nb, Len(nb) - (Len(p.bits) - 1 - p.e)))
      want == NatAdd(sec, NatMul(NatSmall(25569), 86400))
      dist == IF NatLess(q, want) THEN NatSub(want, q) ELSE NatSub(q, want)
  IN p.cls = "fin" /\ ~p.neg /\ p.e \in 0..50 /\ NatLess(dist, <<2>>)
RECURSIVE NearDoc(_, _)
HasDate(d) == ~AllNodes(d, LAMBDA n : n.t # "jdate")
NearDoc(d, got) ==
  CASE d.t = "jdate" -> got.t = "dt" /\ NearSec(got.d, SecOfDate(d.s))
    [] d.t = "obj" -> got.t = "obj" /\ Len(got.kv) = Len(d.kv)
                      /\ \A i \in 1..Len(d.kv) : got.kv[i].k = d.kv[i].k /\ NearDoc(d.kv[i].v, got.kv[i].v)
    [] d.t = "arr" -> got.t = "arr" /\ Len(got.el) = Len(d.el) /\ \A i \in 1..Len(d.el) : NearDoc(d.el[i], got.el[i])
    [] OTHER -> got = d
(* the text of a string literal between its quotes *)
StrText(raw) ==
  LET plain == \A j \in 1..Len(raw) : raw[j] # 92
      u == IF plain THEN [ok |-> TRUE, s |-> raw] ELSE Unesc(raw, 1, <<>>)
      good == u.ok /\ (\A j \in 1..Len(raw) : raw[j] >= 32) /\ Utf8Ok(raw)
  IN [strict |-> good, s |-> IF u.ok THEN u.s ELSE raw]

(* numbers *)
IsNumCh(c) == IsDigit(c) \/ c \in {43, 45, 46, 69, 101}
RECURSIVE NumEnd(_, _)
NumEnd(s, i) == IF i <= Len(s) /\ IsNumCh(s[i]) THEN NumEnd(s, i + 1) ELSE i
(* tolerated number forms: [+-]?(digits[.digits?] | .digits)([eE][+-]?digits)? *)
LenientNum(t) ==
  LET a == IF t # <<>> /\ t[1] \in {43, 45} THEN 2 ELSE 1
      b == SpanDigits(t, a)
      c == IF At(t, b) = 46 THEN SpanDigits(t, b + 1) ELSE b
      some == b > a \/ c > b + 1
      d == IF At(t, c) \in {69, 101} THEN (IF At(t, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1) ELSE c
      e == IF d > c THEN SpanDigits(t, d) ELSE c
  IN some /\ e = Len(t) + 1 /\ (d > c => e > d)
NumValue(t) ==          \* t is a run of number characters
  LET r == DecText(t, 1)
      std == r.ok /\ r.next = Len(t) + 1 /\ (Len(r.ip) = 1 \/ r.ip[1] # 48)
  IN IF ~std THEN (IF LenientNum(t) THEN [ok |-> TRUE, strict |-> FALSE, odd |-> FALSE, d |-> Const("null")] ELSE Fail)
     ELSE LET iv == IF r.frac THEN [ok |-> FALSE] ELSE IntOfDigits(r.neg, r.ds)
          IN IF iv.ok THEN [ok |-> TRUE, strict |-> TRUE, odd |-> FALSE, d |-> IntD(iv.i)]
             ELSE IF Len(r.ds) > 400 \/ r.e10 > 310 \/ r.e10 < -400 \/ r.e10 + Len(r.ds) > 312
                  THEN [ok |-> TRUE, strict |-> TRUE, odd |-> TRUE, d |-> Const("null")]
             ELSE LET x == DecToF64(r.neg, r.ds, r.e10)    \* beyond the range of a double: open
                  IN [ok |-> TRUE, strict |-> TRUE, odd |-> ~IsFinite8(x), d |-> Dbl(x)]
Lit(s, i, w) == SubSeq(s, i, Min2(Len(s), i + Len(w) - 1)) = w
LitTrue == <<116, 114, 117, 101>>
LitFalse == <<102, 97, 108, 115, 101>>
LitNull == <<110, 117, 108, 108>>
(* a tolerated not-a-number or infinity literal at i: its length, 0 if none *)
OddLit(s, i) ==
  LET k == IF At(s, i) \in {43, 45} THEN 1 ELSE 0
      w == FoldKey(SubSeq(s, i + k, Min2(Len(s), i + k + 2)))
  IN IF w = <<110, 97, 110>> \/ w = <<105, 110, 102>> THEN k + 3 ELSE 0

RECURSIVE JVal(_, _), JMembers(_, _, _, _, _), JElems(_, _, _, _, _)
JVal(s, i) ==
  LET c == At(s, i) IN
  CASE c = 123 -> LET j == SkipWs(s, i + 1)
                  IN IF At(s, j) = 125 THEN Ok(Obj(<<>>), j + 1, TRUE, FALSE) ELSE JMembers(s, j, <<>>, TRUE, FALSE)
    [] c = 91 -> LET j == SkipWs(s, i + 1)
                 IN IF At(s, j) = 93 THEN Ok(Arr(<<>>), j + 1, TRUE, FALSE) ELSE JElems(s, j, <<>>, TRUE, FALSE)
    [] c = 34 -> LET e == StrEnd(s, i + 1) IN
                 IF e = 0 THEN Fail
                 ELSE LET raw == SubSeq(s, i + 1, e - 1)
                          x == StrText(raw)
                      IN IF ~LooksDate(raw) THEN Ok(Str(x.s), e + 1, x.strict, FALSE)
                         ELSE IF DateDigits(raw) # <<>> THEN Ok(JDate(raw), e + 1, TRUE, FALSE)
                         ELSE Ok(Str(x.s), e + 1, x.strict, TRUE)
    [] c = 116 -> IF Lit(s, i, LitTrue) THEN Ok(Const("true"), i + 4, TRUE, FALSE) ELSE Fail
    [] c = 102 -> IF Lit(s, i, LitFalse) THEN Ok(Const("false"), i + 5, TRUE, FALSE) ELSE Fail
    [] c = 110 /\ Lit(s, i, LitNull) -> Ok(Const("null"), i + 4, TRUE, FALSE)
    [] c >= 0 /\ IsNumCh(c) /\ OddLit(s, i) = 0 ->
         LET e == NumEnd(s, i)
             r == NumValue(SubSeq(s, i, e - 1))
         IN IF r.ok THEN Ok(r.d, e, r.strict, r.odd) ELSE Fail
    [] OTHER -> LET n == OddLit(s, i) IN IF n > 0 THEN Ok(Const("nan"), i + n, FALSE, FALSE) ELSE Fail
(* at the first byte of a member *)
JMembers(s, i, kv, strict, odd) ==
  IF At(s, i) # 34 THEN Fail
  ELSE LET e == StrEnd(s, i + 1) IN
    IF e = 0 THEN Fail
    ELSE LET x == StrText(SubSeq(s, i + 1, e - 1))
             j == SkipWs(s, e + 1) IN
      IF At(s, j) # 58 THEN Fail
      ELSE LET v == JVal(s, SkipWs(s, j + 1)) IN
        IF ~v.ok THEN Fail
        ELSE LET st == strict /\ x.strict /\ v.strict
                 od == odd \/ v.odd \/ \E q \in 1..Len(kv) : kv[q].k = x.s
                 kv2 == Append(kv, [k |-> x.s, v |-> v.d])
                 m == SkipWs(s, v.n)
             IN IF At(s, m) = 125 THEN Ok(Obj(kv2), m + 1, st, od)
                ELSE IF At(s, m) = 44 THEN JMembers(s, SkipWs(s, m + 1), kv2, st, od)
                ELSE Fail
JElems(s, i, el, strict, odd) ==
  LET v == JVal(s, i) IN
  IF ~v.ok THEN Fail
  ELSE LET el2 == Append(el, v.d)
           st == strict /\ v.strict
           od == odd \/ v.odd
           m == SkipWs(s, v.n)
       IN IF At(s, m) = 93 THEN Ok(Arr(el2), m + 1, st, od)
          ELSE IF At(s, m) = 44 THEN JElems(s, SkipWs(s, m + 1), el2, st, od)
          ELSE Fail
JsonClass(s) ==
  LET v == JVal(s, SkipWs(s, 1))
  IN IF ~v.ok \/ SkipWs(s, v.n) # Len(s) + 1 THEN [c |-> "err"]
     ELSE IF v.strict /\ ~v.odd THEN [c |-> "doc", d |-> v.d]
     ELSE [c |-> "any"]

----------------------------------------------------------------------------
(* output: got is the document denoted by the produced text                  *)
RECURSIVE JsonMatch(_, _, _)
JsonMatch(d, got0, escdt) ==
  LET got == IF got0.t = "jdate" THEN Str(got0.s) ELSE got0 IN
  CASE d.t = "obj" -> got.t = "obj" /\ Len(got.kv) = Len(d.kv)
                      /\ \A i \in 1..Len(d.kv) : got.kv[i].k = d.kv[i].k
                                                 /\ JsonMatch(d.kv[i].v, got.kv[i].v, escdt)
    [] d.t = "arr" -> got.t = "arr" /\ Len(got.el) = Len(d.el)
                      /\ \A i \in 1..Len(d.el) : JsonMatch(d.el[i], got.el[i], escdt)
    [] d.t = "str" -> got = d
    [] d.t \in {"int", "tsp"} -> got.t = "int" /\ got.i = d.i
    [] d.t \in {"flt", "dbl"} ->
         LET v == AsDouble(d) IN
         IF ~IsFinite8(v) THEN got.t = "null"
         ELSE IF got.t = "dbl" THEN got.d = v
         ELSE got.t = "int" /\ (I64ToF64(got.i) = v \/ (got.i = I64Zero /\ v = DNegZero))
    [] d.t = "dt" ->
         LET p == DtParts(d.d) IN
         got.t = "str" /\ (p.ok => got.s = (IF escdt
              THEN <<47>> \o DateMark \o I64Text(UnixSec(p)) \o (IF UnixSec(p) = I64Zero THEN <<>> ELSE <<48, 48, 48>>) \o <<41, 47>>
              ELSE DtText(p)))
    [] d.t = "oid" -> got.t = "obj" /\ Len(got.kv) = 1 /\ got.kv[1].k = <<36, 111, 105, 100>>
                      /\ got.kv[1].v = Str(HexText(d.b))
    [] d.t = "dec" -> got.t = "obj" /\ Len(got.kv) = 1 /\ got.kv[1].k = <<68,101,99,105,109,97,108,49,50,56>>
                      /\ got.kv[1].v = Str(HexText(d.b))
    [] d.t \in {"bin", "ext", "sub"} -> got = Str(BinText(d))
    [] d.t \in {"nan", "inf"} -> got.t = "null"
    [] OTHER -> got = d
(* strings whose text survives unescaped output *)
PlainText(s) == \A i \in 1..Len(s) : s[i] >= 32 /\ s[i] \notin {34, 92}
PlainDoc(d) == AllNodes(d, LAMBDA n : (n.t = "str" => PlainText(n.s))
                                      /\ (n.t = "obj" => \A i \in 1..Len(n.kv) : PlainText(n.kv[i].k)))
Utf8Doc(d) == AllNodes(d, LAMBDA n : (n.t = "str" => Utf8Ok(n.s))
                                     /\ (n.t = "obj" => \A i \in 1..Len(n.kv) : Utf8Ok(n.kv[i].k)))
(* style: "none", "all", "ansi"; built: all strings were set by the program *)
JsonOutOk(s, d, style, escdt, built) ==
  IF ~Utf8Doc(d) \/ (style = "none" /\ ~PlainDoc(d)) THEN TRUE
  ELSE LET v == JVal(s, SkipWs(s, 1))
       IN /\ v.ok /\ v.strict /\ SkipWs(s, v.n) = Len(s) + 1
          /\ JsonMatch(d, v.d, escdt)
          /\ (style = "all" /\ built) => \A i \in 1..Len(s) : s[i] < 128
=============================================================================
