-------------------------------- MODULE Yaml --------------------------------
(***************************************************************************)
(* The block subset of YAML.  YamlClass(s, ic): doc when the text lies in   *)
(* the subset (the tree follows from the indentation), any otherwise.       *)
(* Lines are [ind, text] with blank and comment lines removed; anchors are  *)
(* a list, in order of definition, of [n, open, d].                         *)
(***************************************************************************)
EXTENDS DocOps

YAny == [ok |-> FALSE]
RECURSIVE TrimEnd(_)
TrimEnd(s) == IF s # <<>> /\ s[Len(s)] \in {32, 13} THEN TrimEnd(Front(s)) ELSE s
RECURSIVE TrimStart(_)
TrimStart(s) == IF s # <<>> /\ s[1] = 32 THEN TrimStart(Tail(s)) ELSE s
RECURSIVE SplitLines(_, _, _)
SplitLines(s, from, acc) ==
  LET S == {i \in from..Len(s) : s[i] = 10}
  IN IF S = {} THEN Append(acc, SubSeq(s, from, Len(s)))
     ELSE LET j == CHOOSE i \in S : \A k \in S : i <= k
          IN SplitLines(s, j + 1, Append(acc, SubSeq(s, from, j - 1)))
(* position of the blank before a trailing comment, 0 if none *)
CommentAt(t) == LET S == {i \in 1..(Len(t) - 1) : t[i] = 32 /\ t[i + 1] = 35}
                IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A k \in S : i <= k
YLine(raw) ==
  LET body == TrimEnd(raw)
      t0 == TrimStart(body)
      c == CommentAt(t0)
  IN IF t0 = <<>> \/ t0[1] = 35 THEN [k |-> "skip"]
     ELSE IF \E i \in 1..Len(t0) : t0[i] < 32 \/ t0[i] = 127 THEN [k |-> "any"]
     ELSE [k |-> "line", ind |-> Len(body) - Len(t0), text |-> IF c > 0 THEN TrimEnd(SubSeq(t0, 1, c - 1)) ELSE t0]

(* a colon that separates key and value *)
SepColons(t) == {i \in 1..Len(t) : t[i] = 58 /\ (i = Len(t) \/ t[i + 1] = 32)}
Colons(t) == {i \in 1..Len(t) : t[i] = 58}
MinOf(S) == CHOOSE i \in S : \A k \in S : i <= k
OddStart == {34, 39, 123, 91, 124, 62, 33, 37, 64, 96, 44, 93, 125, 63, 126, 35, 38, 42}
MergeKey == <<60, 60>>
SplitKv(t) ==
  LET S == SepColons(t) IN
  IF S = {} THEN [c |-> "plain"]
  ELSE LET j == MinOf(S)
           k == TrimEnd(SubSeq(t, 1, j - 1))
           v == TrimStart(SubSeq(t, j + 1, Len(t)))
       IN IF MinOf(Colons(t)) # j \/ S # {j} \/ k = <<>> THEN [c |-> "any"]
          ELSE IF k[1] \in OddStart THEN [c |-> "any"]
          ELSE [c |-> "kv", k |-> k, v |-> v]

YTrue == <<116, 114, 117, 101>>
YFalse == <<102, 97, 108, 115, 101>>
YNull == <<110, 117, 108, 108>>
YPlain(v) ==
  IF v = <<>> THEN YAny
  ELSE IF v[1] \in OddStart \/ SepColons(v) # {} THEN YAny
  ELSE IF v = YTrue THEN Some(Const("true"))
  ELSE IF v = YFalse THEN Some(Const("false"))
  ELSE IF FoldKey(v) \in {YTrue, YFalse, YNull} THEN YAny
  ELSE IF NoNumber(v) THEN Some(Str(v))
  ELSE LET r == DecText(v, 1) IN
    IF ~r.ok THEN YAny
    ELSE IF r.next <= Len(v) THEN (IF v[r.next] \in {46, 69, 101} THEN YAny ELSE Some(Str(v)))
    ELSE LET x == TextF64(v) IN IF x.def THEN Some(Dbl(x.v)) ELSE YAny

NoBlank(s) == s # <<>> /\ \A i \in 1..Len(s) : s[i] # 32
(* the latest anchor of a name *)
Anchor(env, n) == LET S == {i \in 1..Len(env) : env[i].n = n}
                  IN IF S = {} THEN None
                     ELSE LET e == env[CHOOSE i \in S : \A k \in S : k <= i]
                          IN IF e.open THEN None ELSE Some(e.d)
YScalar(v, env) ==
  IF v[1] = 38 THEN
    LET sp == FirstIdx(v, LAMBDA c : c = 32) IN
    IF sp < 3 THEN YAny
    ELSE LET r == YPlain(TrimStart(SubSeq(v, sp, Len(v))))
         IN IF ~r.ok THEN YAny
            ELSE [ok |-> TRUE, d |-> r.v, env |-> Append(env, [n |-> SubSeq(v, 2, sp - 1), open |-> FALSE, d |-> r.v])]
  ELSE IF v[1] = 42 THEN
    LET a == IF NoBlank(Tail(v)) THEN Anchor(env, Tail(v)) ELSE None
    IN IF a.ok THEN [ok |-> TRUE, d |-> a.v, env |-> env] ELSE YAny
  ELSE LET r == YPlain(v) IN IF r.ok THEN [ok |-> TRUE, d |-> r.v, env |-> env] ELSE YAny

IsDash(t) == t[1] = 45 /\ (Len(t) = 1 \/ t[2] = 32)
RECURSIVE YBlock(_, _, _, _), YSeq(_, _, _, _, _, _), YMap(_, _, _, _, _, _, _)
YBlock(L, i, env, ic) ==
  IF L[i].text[1] = 45 THEN YSeq(L, i, L[i].ind, <<>>, env, ic)
  ELSE YMap(L, i, L[i].ind, <<>>, {}, env, ic)
YSeq(L, i, ind, el, env, ic) ==
  IF i > Len(L) THEN [ok |-> TRUE, d |-> Arr(el), i |-> i, env |-> env]
  ELSE IF L[i].ind < ind THEN [ok |-> TRUE, d |-> Arr(el), i |-> i, env |-> env]
  ELSE IF L[i].ind > ind \/ ~IsDash(L[i].text) THEN YAny
  ELSE LET t == L[i].text
           next(r) == IF ~r.ok THEN YAny ELSE YSeq(L, r.i, ind, Append(el, r.d), r.env, ic)
       IN IF Len(t) = 1 THEN
            (IF i = Len(L) THEN YAny ELSE IF L[i + 1].ind <= ind THEN YAny
             ELSE next(YBlock(L, i + 1, env, ic)))
          ELSE LET rest == TrimStart(Tail(t))
                   s == SplitKv(rest)
               IN IF IsDash(rest) \/ s.c = "any" THEN YAny
                  ELSE IF s.c = "kv" THEN
                    (IF t[3] = 32 \/ s.k = MergeKey THEN YAny
                     ELSE next(YMap([L EXCEPT ![i] = [ind |-> ind + 2, text |-> rest]], i, ind + 2, <<>>, {}, env, ic)))
                  ELSE LET r == YScalar(rest, env)
                       IN IF ~r.ok THEN YAny ELSE YSeq(L, i + 1, ind, Append(el, r.d), r.env, ic)
(* ek: the keys written out in this mapping so far (the others were merged in) *)
YMap(L, i, ind, kv, ek, env, ic) ==
  IF i > Len(L) THEN [ok |-> TRUE, d |-> Obj(kv), i |-> i, env |-> env]
  ELSE IF L[i].ind < ind THEN [ok |-> TRUE, d |-> Obj(kv), i |-> i, env |-> env]
  ELSE IF L[i].ind > ind \/ L[i].text[1] = 45 THEN YAny
  ELSE LET s == SplitKv(L[i].text) IN
    IF s.c # "kv" THEN YAny
    ELSE IF s.k = MergeKey THEN
      LET a == IF Len(s.v) > 1 /\ s.v[1] = 42 /\ NoBlank(Tail(s.v)) THEN Anchor(env, Tail(s.v)) ELSE None
      IN IF ~a.ok THEN YAny ELSE IF a.v.t # "obj" THEN YAny
         ELSE YMap(L, i + 1, ind, AddMembers(Obj(kv), a.v, ic).kv, ek, env, ic)
    ELSE IF \E k \in ek : KeyEq(k, s.k, ic) THEN YAny
    ELSE LET at == KeyIdx(kv, s.k, ic)
             put(v) == IF at = 0 THEN Append(kv, [k |-> s.k, v |-> v])
                       ELSE ReplaceAtIdx(kv, at, [k |-> kv[at].k, v |-> v])
             anch == s.v # <<>> /\ Len(s.v) > 1 /\ s.v[1] = 38 /\ NoBlank(s.v)
         IN IF s.v = <<>> \/ anch THEN
              IF i = Len(L) THEN YAny
              ELSE IF L[i + 1].ind <= ind \/ (anch /\ L[i + 1].text[1] = 45)
                      \/ (at > 0 /\ IsCont(kv[Max2(at, 1)].v)) THEN YAny
              ELSE LET env1 == IF anch THEN Append(env, [n |-> Tail(s.v), open |-> TRUE, d |-> Const("null")]) ELSE env
                       r == YBlock(L, i + 1, env1, ic)
                   IN IF ~r.ok THEN YAny
                      ELSE YMap(L, r.i, ind, put(r.d), ek \cup {s.k},
                                IF anch THEN [r.env EXCEPT ![Len(env1)] = [n |-> Tail(s.v), open |-> FALSE, d |-> r.d]]
                                ELSE r.env, ic)
            ELSE LET r == YScalar(s.v, env)
                 IN IF ~r.ok THEN YAny
                    ELSE YMap(L, i + 1, ind, put(r.d), ek \cup {s.k}, r.env, ic)

YamlClass(s, ic) ==
  LET raw == SplitLines(s, 1, <<>>)
      ls == [i \in 1..Len(raw) |-> YLine(raw[i])]
      L == SelectSeq(ls, LAMBDA x : x.k # "skip")
  IN IF L = <<>> \/ \E i \in 1..Len(L) : L[i].k = "any" THEN [c |-> "any"]
     ELSE LET M == [i \in 1..Len(L) |-> [ind |-> L[i].ind, text |-> L[i].text]]
              r == YBlock(M, 1, <<>>, ic)
          IN IF ~r.ok THEN [c |-> "any"]
             ELSE IF r.i <= Len(L) THEN [c |-> "any"]
             ELSE [c |-> "doc", d |-> r.d]
=============================================================================
