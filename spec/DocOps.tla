------------------------------- MODULE DocOps -------------------------------
(***************************************************************************)
(* The mutations of a document as functions from documents to documents.   *)
(* An operation is a record with field f (the call) and its arguments.     *)
(***************************************************************************)
EXTENDS Doc

ReplaceAtIdx(s, i, v) == [j \in 1..Len(s) |-> IF j = i THEN v ELSE s[j]]
RemoveIdx(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsertIdx(s, i, v) == SubSeq(s, 1, i - 1) \o <<v>> \o SubSeq(s, i, Len(s))

(* array store: positions outside append; other types become an array first *)
PutIndex(d, n, v) ==
  IF d.t # "arr" THEN Arr(<<v>>)
  ELSE IF n >= 0 /\ n < Len(d.el) THEN Arr(ReplaceAtIdx(d.el, n + 1, v))
  ELSE Arr(Append(d.el, v))
(* keyed store *)
PutKey(d, k, v, ic) ==
  IF d.t = "arr" /\ NameIndex(k) # -1 THEN PutIndex(d, NameIndex(k), v)
  ELSE IF d.t # "obj" THEN Obj(<<[k |-> k, v |-> v]>>)
  ELSE LET i == KeyIdx(d.kv, k, ic)
       IN IF i = 0 THEN Obj(Append(d.kv, [k |-> k, v |-> v]))
          ELSE Obj(ReplaceAtIdx(d.kv, i, [k |-> d.kv[i].k, v |-> v]))
(* values decoded from BSON may carry a subtype: a timestamp is an integer, an
   object id and a decimal are binaries, a typed binary is an extension value *)
KindOf(t) == CASE t = "tsp" -> "int" [] t \in {"oid", "dec"} -> "bin" [] t = "sub" -> "ext" [] OTHER -> t
(* what a typed slot holds after retyping: same type keeps its content *)
Retype(old, kd) == IF old.ok /\ KindOf(old.v.t) = kd THEN old.v ELSE Zero(kd)
(* an integer or a binary stored over such a value keeps the subtype as long as it fits *)
StoreInt(old, i) == IF old.t = "tsp" THEN [old EXCEPT !.i = i] ELSE IntD(i)
StoreBin(old, b) == CASE ExtLike(old.t) -> [old EXCEPT !.b = b]
                      [] old.t = "oid" /\ Len(b) = 12 -> [old EXCEPT !.b = b]
                      [] old.t = "dec" /\ Len(b) = 16 -> [old EXCEPT !.b = b]
                      [] OTHER -> Bin(b)
OldAt(d, k, ic) == LET c == ByName(d, k, ic) IN IF c.ok THEN c.v ELSE Const("null")
OldIx(d, n) == LET c == IF d.t = "arr" THEN ByIndex(d, n) ELSE None IN IF c.ok THEN c.v ELSE Const("null")
BinSlot(old) == IF BinLike(old.t) THEN old ELSE Bin(<<>>)
SlotKey(d, k, kd, ic) == PutKey(d, k, Retype(ByName(d, k, ic), kd), ic)
SlotIndex(d, n, kd) == PutIndex(d, n, Retype(IF d.t = "arr" THEN ByIndex(d, n) ELSE None, kd))

(* replace the value at an existing path *)
RECURSIVE PutAt(_, _, _, _)
PutAt(d, p, v, ic) ==
  IF p = <<>> THEN v
  ELSE LET c == ByName(d, Head(p), ic)
       IN PutKey(d, Head(p), PutAt(c.v, Tail(p), v, ic), ic)

RECURSIVE Force(_, _, _, _)
Force(d, ks, kd, ic) ==
  IF Len(ks) = 1 THEN SlotKey(d, ks[1], kd, ic)
  ELSE LET k == Head(ks)
           c == ByName(d, k, ic)
           base == IF d.t = "arr" /\ NameIndex(k) < 0 THEN Obj(<<>>)
                   ELSE IF IsCont(d) THEN d ELSE Obj(<<>>)
           sub == IF c.ok /\ IsCont(c.v) THEN c.v ELSE Obj(<<>>)
       IN PutKey(IF c.ok /\ IsCont(c.v) THEN d ELSE base, k, Force(sub, Tail(ks), kd, ic), ic)

Cleared(d) == CASE d.t \in {"obj", "arr", "str"} -> Zero(d.t)
                [] BinLike(d.t) -> Bin(<<>>)
                [] ExtLike(d.t) -> Ext(0, <<>>)
                [] d.t = "tsp" -> IntD(d.i)
                [] OTHER -> d

Mut(o, d, ic) ==
  CASE o.f = "SetInt" -> StoreInt(d, o.i)
    [] o.f = "SetFloat" -> Flt(o.fl)
    [] o.f = "SetDouble" -> IF d.t = "dt" THEN Dt(o.d) ELSE Dbl(o.d)
    [] o.f \in {"SetTime", "SetDelphiTime"} -> IF d.t = "dbl" THEN Dbl(o.d) ELSE Dt(o.d)
    [] o.f = "SetString" -> Str(o.s)
    [] o.f = "SetBool" -> Const(IF o.bv THEN "true" ELSE "false")
    [] o.f \in {"SetBinary", "SetBinaryShared"} -> IF BinLike(d.t) \/ ExtLike(d.t) THEN StoreBin(d, o.b) ELSE d
    [] o.f = "SetExtType" -> IF d.t = "ext" THEN Ext(o.x, d.b) ELSE d
    [] o.f = "Reset" -> Zero(o.kd)
    [] o.f = "Clear" -> Cleared(d)
    [] o.f \in {"SetKey", "SetKeyCached"} -> SlotKey(d, o.k, o.kd, ic)
    [] o.f = "SetKeyInt" -> PutKey(d, o.k, StoreInt(OldAt(d, o.k, ic), o.i), ic)
    [] o.f = "SetKeyFloat" -> PutKey(d, o.k, Flt(o.fl), ic)
    [] o.f = "SetKeyDouble" -> PutKey(d, o.k, Dbl(o.d), ic)
    [] o.f = "SetKeyString" -> PutKey(d, o.k, Str(o.s), ic)
    [] o.f = "SetKeyBool" -> PutKey(d, o.k, Const(IF o.bv THEN "true" ELSE "false"), ic)
    [] o.f = "SetKeyTime" -> PutKey(d, o.k, Dt(o.d), ic)
    [] o.f = "SetKeyConst" -> PutKey(d, o.k, Const(o.kd), ic)
    [] o.f = "SetIndexConst" -> PutIndex(d, o.n, Const(o.kd))
    [] o.f = "SetKeyNil" -> PutKey(d, o.k, Const("null"), ic)     \* storing no value stores null
    [] o.f = "SetIndexNil" -> PutIndex(d, o.n, Const("null"))
    [] o.f = "SetKeyBin" -> PutKey(d, o.k, StoreBin(BinSlot(OldAt(d, o.k, ic)), o.b), ic)
    [] o.f = "SetKeyExt" -> PutKey(d, o.k, LET old == OldAt(d, o.k, ic) IN IF ExtLike(old.t) THEN [old EXCEPT !.x = o.x, !.b = o.b] ELSE Ext(o.x, o.b), ic)
    [] o.f = "SetKeyValue" -> PutKey(d, o.k, o.v, ic)
    [] o.f = "SetIndex" -> SlotIndex(d, o.n, o.kd)
    [] o.f = "SetIndexInt" -> PutIndex(d, o.n, StoreInt(OldIx(d, o.n), o.i))
    [] o.f = "SetIndexFloat" -> PutIndex(d, o.n, Flt(o.fl))
    [] o.f = "SetIndexDouble" -> PutIndex(d, o.n, Dbl(o.d))
    [] o.f = "SetIndexString" -> PutIndex(d, o.n, Str(o.s))
    [] o.f = "SetIndexBool" -> PutIndex(d, o.n, Const(IF o.bv THEN "true" ELSE "false"))
    [] o.f = "SetIndexTime" -> PutIndex(d, o.n, Dt(o.d))
    [] o.f = "SetIndexValue" -> PutIndex(d, o.n, o.v)
    [] o.f = "Append" -> IF d.t = "arr" THEN Arr(Append(d.el, Zero(o.kd))) ELSE Arr(<<Zero(o.kd)>>)
    [] o.f = "Insert" -> IF d.t # "arr" THEN Arr(<<Zero(o.kd)>>)
                         ELSE IF o.n >= Len(d.el) THEN Arr(Append(d.el, Zero(o.kd)))
                         ELSE Arr(InsertIdx(d.el, Max2(o.n, 0) + 1, Zero(o.kd)))
    [] o.f \in {"RemoveKey", "Extract"} ->
         IF d.t # "obj" THEN d
         ELSE LET i == KeyIdx(d.kv, o.k, ic) IN IF i = 0 THEN d ELSE Obj(RemoveIdx(d.kv, i))
    [] o.f = "RemoveIndex" ->
         IF d.t = "arr" /\ o.n >= 0 /\ o.n < Len(d.el) THEN Arr(RemoveIdx(d.el, o.n + 1)) ELSE d
    [] o.f = "ForcePath" -> IF o.ks = <<>> THEN d ELSE Force(d, o.ks, o.kd, ic)

----------------------------------------------------------------------------
(* merging; the result carries the callback invocations in order            *)
PolicyOp(pol, path) ==
  LET i == FirstIdx(pol.rules, LAMBDA r : r.path = path)
  IN IF i = 0 THEN pol.dflt ELSE pol.rules[i].op
ArrUnion(a, b) == Arr(a.el \o SelectSeq(b.el, LAMBDA x : ~\E i \in 1..Len(a.el) : EqDoc(x, a.el[i])))
RECURSIVE MergeObj(_, _, _, _, _)
(* returns [d |-> merged, log |-> calls] *)
MergeObj(path, d, s, pol, ic) ==
  FoldLeft(LAMBDA acc, m :
     LET i == KeyIdx(acc.d.kv, m.k, ic)
     IN IF i = 0 THEN [d |-> Obj(Append(acc.d.kv, m)), log |-> acc.log]
        ELSE LET old == acc.d.kv[i].v
                 full == (IF path = <<>> THEN <<>> ELSE path \o <<47>>) \o m.k
                 op == IF pol.cb THEN PolicyOp(pol, full) ELSE "normal"
                 log1 == IF pol.cb THEN Append(acc.log, [path |-> full, old |-> old, new |-> m.v]) ELSE acc.log
                 put(v) == Obj(ReplaceAtIdx(acc.d.kv, i, [k |-> acc.d.kv[i].k, v |-> v]))
             IN CASE op = "replace" -> [d |-> put(m.v), log |-> log1]
                  [] op = "custom" -> [d |-> acc.d, log |-> log1]
                  [] OTHER ->
                     IF old.t = "obj" /\ m.v.t = "obj" THEN
                       LET r == MergeObj(full, old, m.v, pol, ic)
                       IN [d |-> put(r.d), log |-> log1 \o r.log]
                     ELSE IF old.t = "arr" /\ m.v.t = "arr" THEN [d |-> put(ArrUnion(old, m.v)), log |-> log1]
                     ELSE IF IsCont(old) THEN [d |-> acc.d, log |-> log1]
                     ELSE [d |-> put(Arr(<<old, m.v>>)), log |-> log1],
     [d |-> d, log |-> <<>>], s.kv)
Merge(d, s, pol, ic) ==
  IF d.t # s.t THEN [d |-> d, log |-> <<>>]
  ELSE CASE d.t = "obj" -> MergeObj(<<>>, d, s, pol, ic)
         [] d.t = "arr" -> [d |-> ArrUnion(d, s), log |-> <<>>]
         [] OTHER -> [d |-> d, log |-> <<>>]

(* AddFrom: the members of s missing in d, or all elements of s *)
AddMembers(d, s, ic) ==
  CASE s.t = "obj" /\ d.t = "obj" ->
         Obj(FoldLeft(LAMBDA kv, m : IF KeyIdx(kv, m.k, ic) > 0 THEN kv ELSE Append(kv, m), d.kv, s.kv))
    [] s.t = "arr" /\ d.t = "arr" -> Arr(d.el \o s.el)
    [] OTHER -> d
=============================================================================
