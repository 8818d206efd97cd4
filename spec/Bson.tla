-------------------------------- MODULE Bson --------------------------------
(***************************************************************************)
(* BSON 1.1 for the element types dxsvalue supports.                       *)
(***************************************************************************)
EXTENDS MsgPack

Le(b) == Reverse(b)
Le32(n) == Le(U32(n))
FitsI32(b) == LET s == b[5] >= 128 IN \A i \in 1..4 : b[i] = (IF s THEN 255 ELSE 0)
DecimalText(n) == LET ds == NatDigits(NatSmall(n)) IN [i \in 1..Len(ds) |-> ds[i] + 48]

BsonType(d) == CASE d.t = "obj" -> 3 [] d.t = "arr" -> 4 [] d.t = "str" -> 2
                 [] d.t = "int" -> IF FitsI32(d.i) THEN 16 ELSE 18
                 [] d.t = "tsp" -> 17
                 [] d.t \in {"flt", "dbl", "nan", "inf"} -> 1
                 [] d.t = "dt" -> 9
                 [] d.t \in {"bin", "sub"} -> 5
                 [] d.t = "oid" -> 7 [] d.t = "dec" -> 19
                 [] d.t \in {"true", "false"} -> 8
                 [] OTHER -> 10
RECURSIVE BsonDoc(_)
BsonVal(d) ==
  CASE d.t \in {"obj", "arr"} -> BsonDoc(d)
    [] d.t = "str" -> Le32(Len(d.s) + 1) \o d.s \o <<0>>
    [] d.t = "int" -> IF FitsI32(d.i) THEN Le(SubSeq(d.i, 5, 8)) ELSE Le(d.i)
    [] d.t = "tsp" -> Le(d.i)
    [] d.t \in {"flt", "dbl"} -> Le(AsDouble(d))
    [] d.t = "nan" -> Le(DNaN)
    [] d.t = "inf" -> Le(DInf(FALSE))
    [] d.t = "dt" -> Le(UnixMs(DtParts(d.d)))
    [] d.t = "bin" -> Le32(Len(d.b)) \o <<0>> \o d.b
    [] d.t = "sub" -> Le32(Len(d.b)) \o <<d.x>> \o d.b
    [] d.t \in {"oid", "dec"} -> d.b
    [] d.t = "true" -> <<1>>
    [] d.t = "false" -> <<0>>
    [] OTHER -> <<>>
BsonDoc(d) ==
  LET body == IF d.t = "obj"
        THEN FlattenSeq([i \in 1..Len(d.kv) |-> <<BsonType(d.kv[i].v)>> \o d.kv[i].k \o <<0>> \o BsonVal(d.kv[i].v)])
        ELSE FlattenSeq([i \in 1..Len(d.el) |-> <<BsonType(d.el[i])>> \o DecimalText(i - 1) \o <<0>> \o BsonVal(d.el[i])])
  IN Le32(Len(body) + 5) \o body \o <<0>>
NoNul(s) == \A i \in 1..Len(s) : s[i] # 0
BsonEncodable(d) == IsCont(d) /\ AllNodes(d, LAMBDA n :
    /\ n.t # "ext" /\ (n.t = "dt" => DtParts(n.d).ok)
    /\ (n.t = "oid" => Len(n.b) = 12) /\ (n.t = "dec" => Len(n.b) = 16)
    /\ (n.t = "sub" => n.x \notin {0, 2})
    /\ (n.t = "obj" => \A i \in 1..Len(n.kv) : NoNul(n.kv[i].k)))
(* what reading the encoding back gives *)
RECURSIVE BsonBack(_)
BsonBack(d) ==
  CASE d.t = "obj" -> Obj([i \in 1..Len(d.kv) |-> [k |-> d.kv[i].k, v |-> BsonBack(d.kv[i].v)]])
    [] d.t = "arr" -> Arr([i \in 1..Len(d.el) |-> BsonBack(d.el[i])])
    [] d.t = "flt" -> Dbl(F32ToF64(d.f))
    [] d.t = "nan" -> Dbl(DNaN)
    [] d.t = "inf" -> Dbl(DInf(FALSE))
    [] OTHER -> d
BsonRoot(d) == IF d.t = "arr"
               THEN Obj([i \in 1..Len(d.el) |-> [k |-> DecimalText(i - 1), v |-> BsonBack(d.el[i])]])
               ELSE BsonBack(d)

----------------------------------------------------------------------------
(* decoding; lim is the position just after the last usable byte             *)
LeLen(s, i) == IF s[i + 3] >= 64 THEN 1073741824
               ELSE s[i] + 256 * s[i + 1] + 65536 * s[i + 2] + 16777216 * s[i + 3]
BFail == [ok |-> FALSE, any |-> FALSE]
BAny == [ok |-> FALSE, any |-> TRUE]
BOk(d, n, odd) == [ok |-> TRUE, d |-> d, n |-> n, odd |-> odd]
RECURSIVE CStrEnd(_, _, _)
CStrEnd(s, i, lim) == IF i >= lim THEN 0 ELSE IF s[i] = 0 THEN i ELSE CStrEnd(s, i + 1, lim)
RECURSIVE BDoc(_, _, _, _), BElems(_, _, _, _, _, _)
(* a document of s at i, all of it before lim; arr: as an array *)
BDoc(s, i, lim, arr) ==
  IF i + 4 >= lim THEN BFail
  ELSE LET n == LeLen(s, i) IN
    IF n < 5 \/ i + n > lim \/ s[i + n - 1] # 0 THEN BFail
    ELSE LET r == BElems(s, i + 4, i + n - 1, arr, <<>>, FALSE)
         IN IF ~r.ok THEN r ELSE [r EXCEPT !.n = i + n]
BScalar(s, t, i, lim) ==
  LET fixed(k, d) == IF i + k > lim THEN BFail ELSE BOk(d, i + k, FALSE)
      by(k) == SubSeq(s, i, Min2(i + k - 1, Len(s)))
  IN CASE t = 1 -> fixed(8, Dbl(Le(by(8))))
       [] t = 2 -> IF i + 4 > lim THEN BFail
                   ELSE LET n == LeLen(s, i) IN
                     IF n < 1 \/ i + 4 + n > lim THEN BFail
                     ELSE IF s[i + 3 + n] # 0 THEN BFail
                     ELSE BOk(Str(SubSeq(s, i + 4, i + 2 + n)), i + 4 + n, FALSE)
       [] t = 5 -> IF i + 5 > lim THEN BFail
                   ELSE LET n == LeLen(s, i)
                            x == s[i + 4] IN
                     IF i + 5 + n > lim THEN BFail
                     ELSE IF x = 0 THEN BOk(Bin(SubSeq(s, i + 5, i + 4 + n)), i + 5 + n, FALSE)
                     ELSE IF x = 2 THEN (IF n < 4 THEN BFail
                            ELSE IF LeLen(s, i + 5) # n - 4 THEN BFail
                            ELSE BOk(Bin(SubSeq(s, i + 9, i + 4 + n)), i + 5 + n, FALSE))
                     ELSE BOk([t |-> "sub", x |-> x, b |-> SubSeq(s, i + 5, i + 4 + n)], i + 5 + n, FALSE)
       [] t = 7 -> fixed(12, [t |-> "oid", b |-> by(12)])
       [] t = 8 -> IF i + 1 > lim THEN BFail
                   ELSE BOk(Const(IF s[i] = 1 THEN "true" ELSE "false"), i + 1, s[i] > 1)
       [] t = 9 -> IF i + 8 > lim THEN BFail
                   ELSE LET ms == Le(by(8))
                            neg == I64Neg(ms)
                            q == NatDivSmall(NatOfBits(I64Mag(ms)), 1000)
                            r == IF neg THEN [ok |-> FALSE]
                                 ELSE DtOfUnix(I64OfMag(FALSE, NatBits(q.q)),
                                               NatMul(NatMul(NatSmall(q.r), 1000), 1000))
                        IN BOk(IF r.ok THEN r.d ELSE Const("null"), i + 8, ~r.ok)
       [] t = 16 -> fixed(4, IntD(SignExt(Le(by(4)))))
       [] t = 17 -> fixed(8, [t |-> "tsp", i |-> Le(by(8))])
       [] t = 18 -> fixed(8, IntD(Le(by(8))))
       [] t = 19 -> fixed(16, [t |-> "dec", b |-> by(16)])
       [] t \in {6, 10, 127, 255} -> fixed(0, Const("null"))
       [] OTHER -> BFail
BElems(s, i, lim, arr, acc, odd) ==
  IF i = lim THEN BOk(IF arr THEN Arr(acc) ELSE Obj(acc), i, odd)
  ELSE LET t == s[i]
           e == CStrEnd(s, i + 1, lim) IN
    IF e = 0 THEN BFail
    ELSE LET k == SubSeq(s, i + 1, e - 1)
             badkey == IF arr THEN k # DecimalText(Len(acc)) ELSE \E q \in 1..Len(acc) : acc[q].k = k
         IN IF badkey THEN BAny
            ELSE LET v == IF t = 3 THEN BDoc(s, e + 1, lim, FALSE)
                          ELSE IF t = 4 THEN BDoc(s, e + 1, lim, TRUE)
                          ELSE BScalar(s, t, e + 1, lim)
                 IN IF ~v.ok THEN v
                    ELSE BElems(s, v.n, lim, arr,
                                Append(acc, IF arr THEN v.d ELSE [k |-> k, v |-> v.d]), odd \/ v.odd)
BsonClass(s) ==
  LET v == BDoc(s, 1, Len(s) + 1, FALSE)
  IN IF ~v.ok THEN [c |-> IF v.any THEN "any" ELSE "err"]
     ELSE IF v.odd \/ v.n # Len(s) + 1 THEN [c |-> "any"]
     ELSE [c |-> "doc", d |-> v.d]
=============================================================================
