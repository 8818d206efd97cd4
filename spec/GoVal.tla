-------------------------------- MODULE GoVal --------------------------------
(***************************************************************************)
(* Go values: which document a Go value denotes (GvMatch), and what a Go   *)
(* destination must hold after a document was converted into it (GoOk for  *)
(* typed destinations, AnyOk for generic maps and slices).                 *)
(***************************************************************************)
EXTENDS JsonText

(* String() of a value *)
StringOk(s, d) ==
  CASE d.t = "str" -> s = d.s
    [] d.t \in {"int", "tsp"} -> s = I64Text(d.i)
    [] d.t \in {"dbl", "flt"} -> FloatTextOk(s, AsDouble(d))
    [] d.t = "dt" -> LET p == DtParts(d.d) IN p.ok => s = DtText(p)
    [] d.t = "true" -> s = LitTrue
    [] d.t = "false" -> s = LitFalse
    [] d.t = "null" -> s = LitNull
    [] d.t \in {"nan", "inf"} -> s = <<>>
    [] IsCont(d) -> JsonOutOk(s, d, "ansi", FALSE, FALSE)
    [] OTHER -> s = BinText(d)

TimeDoc(tm) == Dt(ScaledF64((tm.day + 25569) * 1024 + (tm.ms \div 84375), 10))
RECURSIVE GvMatch(_, _)
GvMatch(g, d) ==
  CASE g.g = "int" -> d = IntD(g.i)
    [] g.g = "flt" -> d = Flt(g.f)
    [] g.g = "dbl" -> d = Dbl(g.d)
    [] g.g = "bool" -> d = Const(IF g.bv THEN "true" ELSE "false")
    [] g.g = "str" -> d = Str(g.s)
    [] g.g = "time" -> IF g.tm.ns = 0 /\ g.tm.ms % 84375 = 0 THEN d = TimeDoc(g.tm) ELSE d.t = "dt"
    [] g.g = "bin" -> d = Bin(g.b)
    [] g.g = "nil" -> d = Const("null")
    [] g.g = "doc" -> d = g.v
    [] g.g = "arr" -> d.t = "arr" /\ Len(d.el) = Len(g.el) /\ \A i \in 1..Len(g.el) : GvMatch(g.el[i], d.el[i])
    [] g.g = "struct" -> d.t = "obj" /\ Len(d.kv) = Len(g.kv)
                         /\ \A i \in 1..Len(g.kv) : d.kv[i].k = g.kv[i].k /\ GvMatch(g.kv[i].v, d.kv[i].v)
    [] g.g = "map" -> d.t = "obj" /\ Len(d.kv) = Len(g.kv)
                      /\ \A i \in 1..Len(g.kv) : \E j \in 1..Len(d.kv) :
                            d.kv[j].k = g.kv[i].k /\ GvMatch(g.kv[i].v, d.kv[j].v)
    [] OTHER -> FALSE

----------------------------------------------------------------------------
LowBytes(b, n) == SubSeq(b, 9 - n, 8)
RegMark == <<114, 101, 103, 58>>     \* reg:
UnMark == <<117, 110, 58>>           \* un:
MarkedOk(s, mark, d) == HasPrefix(s, mark) /\ StringOk(Drop(s, Len(mark)), d)
(* the content of a destination that was never written *)
RECURSIVE ZeroOf(_)
ZeroOf(g) ==
  CASE g.y = "int" -> [g EXCEPT !.v = Zeros(Len(g.v))]
    [] g.y = "f32" -> [g EXCEPT !.v = Zeros(4)]
    [] g.y = "f64" -> [g EXCEPT !.v = Zeros(8)]
    [] g.y = "bool" -> [g EXCEPT !.v = FALSE]
    [] g.y = "time" -> [g EXCEPT !.v = ZeroTime]
    [] g.y = "struct" -> [g EXCEPT !.v = [i \in 1..Len(g.v) |-> [g.v[i] EXCEPT !.v = ZeroOf(g.v[i].v)]]]
    [] OTHER -> [g EXCEPT !.v = <<>>]
ScalarKinds == {"int", "f32", "f64", "bool", "str", "time", "reg", "un"}
FieldEq(k, name, icase) == k = name \/ (icase /\ FoldKey(k) = FoldKey(name))
RECURSIVE GoOk(_, _, _, _, _)
(* top: the destination was passed itself, otherwise it is a field or element *)
GoOk(b, a, d, icase, top) ==
  a.y = b.y /\
  CASE b.y = "int" -> LET r == ReadInt(d) IN r.def => a.v = LowBytes(r.v, Len(b.v))
    [] b.y = "f64" -> LET r == ReadDouble(d) IN r.def => a.v = r.v
    [] b.y = "f32" -> LET r == ReadFloat(d)
                          q == ReadDouble(d)
                      IN (r.def /\ q.def) => (a.v = r.v \/ (IsNaN8(q.v) \/ a.v = F64ToF32(q.v)))
    [] b.y = "bool" -> LET r == ReadBool(d) IN r.def => a.v = r.v
    [] b.y = "str" -> StringOk(a.v, d)
    [] b.y = "time" -> LET r == ReadGoTime(d) IN r.def => a.v = r.v
    [] b.y = "reg" -> MarkedOk(a.v, RegMark, d)
    [] b.y = "un" -> MarkedOk(a.v, UnMark, d)
    [] b.y = "bytes" ->
         IF BinLike(d.t) \/ ExtLike(d.t) THEN a.v = d.b
         ELSE IF top THEN a.v = <<>>
         ELSE IF d.t = "arr" THEN Len(a.v) = Len(d.el)
              /\ \A i \in 1..Len(d.el) : LET r == ReadInt(d.el[i]) IN r.def => a.v[i] = r.v[8]
         ELSE a = b
    [] b.y = "slice" ->
         IF d.t = "arr" THEN Len(a.v) = Len(d.el)
              /\ \A i \in 1..Len(d.el) : GoOk(ZeroOf(a.v[i]), a.v[i], d.el[i], icase, FALSE)
         ELSE a = b
    [] b.y = "struct" ->
         IF d.t # "obj" THEN a = b
         ELSE Len(a.v) = Len(b.v) /\ \A i \in 1..Len(b.v) :
           LET f == b.v[i]
               h == a.v[i]
               ms == SelectSeq(d.kv, LAMBDA m : FieldEq(m.k, f.k, icase))
           IN IF ~f.exp \/ ms = <<>> THEN h.v = f.v
              ELSE IF Len(ms) > 1 /\ f.v.y \notin ScalarKinds THEN TRUE
              ELSE GoOk(f.v, h.v, ms[Len(ms)].v, icase, FALSE)
    [] OTHER -> FALSE
(* what ToStdValue reports for a typed destination *)
GoRet(b, d) == CASE b.y = "struct" -> d.t = "obj"
                 [] b.y \in {"slice"} -> d.t = "arr"
                 [] OTHER -> TRUE

Omitted(d) == d.t \in {"nan", "inf"}
RECURSIVE AnyOk(_, _)
AnyOk(a, d) ==
  CASE d.t = "obj" -> a.y = "map"
         /\ Len(a.kv) = Len(SelectSeq(d.kv, LAMBDA m : ~Omitted(m.v)))
         /\ \A i \in 1..Len(d.kv) : Omitted(d.kv[i].v) \/
              \E j \in 1..Len(a.kv) : a.kv[j].k = d.kv[i].k /\ AnyOk(a.kv[j].v, d.kv[i].v)
    [] d.t = "arr" -> a.y = "list" /\ Len(a.el) = Len(d.el)
         /\ \A i \in 1..Len(d.el) : AnyOk(a.el[i], d.el[i])
    [] d.t = "str" -> a.y = "str" /\ a.v = d.s
    [] d.t \in {"int", "tsp"} -> a.y = "int" /\ a.v = d.i
    [] d.t = "flt" -> a.y = "f32" /\ a.v = d.f
    [] d.t = "dbl" -> a.y = "f64" /\ a.v = d.d
    [] d.t = "dt" -> a.y = "time" /\ LET r == ReadGoTime(d) IN r.def => a.v = r.v
    [] BinLike(d.t) \/ ExtLike(d.t) -> a.y = "bytes" /\ a.v = d.b
    [] d.t = "true" -> a.y = "bool" /\ a.v
    [] d.t = "false" -> a.y = "bool" /\ ~a.v
    [] OTHER -> a.y = "nil"
(* a slice of n elements filled from the front *)
ListOk(a, d) == IF d.t # "arr" THEN \A i \in 1..Len(a.el) : a.el[i].y = "nil"
                ELSE \A i \in 1..Len(a.el) : IF i <= Len(d.el) THEN AnyOk(a.el[i], d.el[i]) ELSE a.el[i].y = "nil"
OldText == <<111, 108, 100>>
StrsOk(a, d) == \A i \in 1..Len(a) : IF d.t = "arr" /\ i <= Len(d.el) THEN StringOk(a[i], d.el[i]) ELSE a[i] = OldText
KeptKey == <<107, 101, 112, 116>>
MapSSOk(a, d) ==
  IF d.t # "obj" THEN a = <<[k |-> KeptKey, v |-> <<107>>]>>
  ELSE LET has == \E i \in 1..Len(d.kv) : d.kv[i].k = KeptKey
       IN /\ Len(a) = Len(d.kv) + (IF has THEN 0 ELSE 1)
          /\ \A i \in 1..Len(d.kv) : \E j \in 1..Len(a) : a[j].k = d.kv[i].k /\ StringOk(a[j].v, d.kv[i].v)
          /\ has \/ \E j \in 1..Len(a) : a[j].k = KeptKey /\ a[j].v = <<107>>
ToGoOk(e, d) ==
  CASE e.form = "mapss" -> e.ret = (d.t = "obj") /\ MapSSOk(e.after, d)
    [] e.form = "map" -> e.ret = (d.t = "obj") /\ (IF d.t = "obj" THEN AnyOk(e.after, d) ELSE e.after.kv = <<>>)
    [] e.form = "list" -> e.ret = (d.t = "arr") /\ ListOk(e.after, d)
    [] e.form = "strs" -> e.ret = (d.t = "arr") /\ StrsOk(e.after, d)
    [] e.form = "ptr" -> e.ret = GoRet(e.before, d) /\ GoOk(e.before, e.after, d, e.icase, TRUE)
    [] OTHER -> FALSE
=============================================================================
