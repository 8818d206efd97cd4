-------------------------------- MODULE MCYaml --------------------------------
(***************************************************************************)
(* A writer of block YAML.  It appends one line at a time, keeping the      *)
(* stack of open blocks and the document the lines denote so far, and so    *)
(* enumerates every arrangement of mappings, sequences, compact entries,    *)
(* anchors, aliases and merge keys up to DEPTH lines.  Invariant: the       *)
(* parser of Yaml.tla reads every finished text as the written document.    *)
(***************************************************************************)
EXTENDS Script

VARIABLES lines,   \* the text lines so far
          doc,     \* the document they denote
          stack,   \* open blocks, outermost first: [ind, kind, path, ek]
          pend,    \* what the last line opened and did not fill: [ok, ind, path, mapOnly, anchor]
          anchors, \* [n, path]: in order of definition
          h        \* a number for the behaviour
vars == <<lines, doc, stack, pend, anchors, h>>

NoPend == [ok |-> FALSE]
Sp(n) == [i \in 1..n |-> 32]
Key(n) == <<107, 48 + n>>
An(n) == IF n = 1 THEN <<97, 98>> ELSE <<97>>    \* one name begins with the other
Values == <<<<118>>, <<53>>, YTrue, <<120, 32, 121>>, <<45, 49, 46, 53>>, YFalse, <<97, 35, 98>>, <<118, 58, 119>>>>
VText(n) == Values[(n % 8) + 1]
VDoc(n) == YPlain(VText(n)).v
Level(s) == Len(s)
N == Len(lines)
KeepL(n, x) == N < 2 \/ Keep(n, x)

PathSteps(p) == [i \in 1..Len(p) |-> [n |-> p[i]]]
GetP(d, p) == Nav(d, PathSteps(p), FALSE).v
PutP(d, p, v) == PutSteps(d, PathSteps(p), v, FALSE)

Init == /\ lines = <<>> /\ stack = <<>> /\ anchors = <<>> /\ h = 0
        /\ doc = Const("null")
        /\ pend = [ok |-> TRUE, ind |-> -1, path |-> <<>>, mapOnly |-> FALSE, name |-> <<>>]

(* the block a line goes to: indentation, kind, path, explicit keys, remaining stack *)
Targets ==
  IF pend.ok THEN
    {[ind |-> IF pend.ind < 0 THEN 0 ELSE pend.ind + w, kind |-> kd, path |-> pend.path, ek |-> {}, below |-> stack]
       : w \in (IF pend.ind < 0 THEN {2} ELSE {1, 2}), kd \in (IF pend.mapOnly THEN {"map"} ELSE {"map", "seq"})}
  ELSE {[ind |-> stack[i].ind, kind |-> stack[i].kind, path |-> stack[i].path, ek |-> stack[i].ek,
         below |-> SubSeq(stack, 1, i - 1)] : i \in 1..Len(stack)}
Base(t) == IF pend.ok THEN PutP(doc, t.path, IF t.kind = "map" THEN Obj(<<>>) ELSE Arr(<<>>)) ELSE doc
(* an anchor is usable once its value is complete: nothing open lies inside it *)
Closed(a, below, t) == ~HasPrefix(Append(t.path, 0), a.path) \/ a.leaf
Latest(n) == LET S == {i \in 1..Len(anchors) : anchors[i].n = n} IN anchors[CHOOSE i \in S : \A k \in S : k <= i]
Names(t) == {n \in {anchors[i].n : i \in 1..Len(anchors)} : Closed(Latest(n), <<>>, t)}

Line(ind, text) == lines' = Append(lines, Sp(ind) \o text)
Mark(x) == h' = (h * 31 + x + Len(stack)) % 1000003
NewAnchor == An(IF N % 2 = 0 THEN 1 ELSE 2)

(* the values a member can have: text after the key or dash, document, anchor *)
Inline(t) ==
  {[x |-> VText(N), d |-> VDoc(N), a |-> <<>>, m |-> 1],
   [x |-> <<38>> \o NewAnchor \o <<32>> \o VText(N + 1), d |-> VDoc(N + 1), a |-> NewAnchor, m |-> 2]}
  \cup {[x |-> <<42>> \o n, d |-> GetP(doc, Latest(n).path), a |-> <<>>, m |-> 3 + n[Len(n)] - 48] : n \in Names(t)}
NoteAnchor(a, path) == anchors' = IF a = <<>> THEN anchors ELSE Append(anchors, [n |-> a, path |-> path, leaf |-> TRUE])
Keys(t) == {Key(IF N > 7 THEN 8 ELSE N + 1), Key(1)} \ t.ek

(* "key: value" in mapping m (a target) of document d, text already indented *)
PutMember(d, path, k, v) ==
  LET o == GetP(d, path)
      at == KeyIdx(o.kv, k, FALSE)
      kv == IF at = 0 THEN Append(o.kv, [k |-> k, v |-> v]) ELSE ReplaceAtIdx(o.kv, at, [k |-> k, v |-> v])
  IN [d |-> PutP(d, path, Obj(kv)), at |-> IF at = 0 THEN Len(o.kv) ELSE at - 1, new |-> at = 0]

MemberLine(t, d0, ind, pre, below, k) ==
  \* inline value
  \/ \E v \in Inline(t) :
       LET r == PutMember(d0, t.path, k, v.d)
       IN /\ KeepL(h, v.m + 10 * k[2] + t.ind) /\ Line(ind, pre \o k \o <<58, 32>> \o v.x)
          /\ doc' = r.d /\ pend' = NoPend /\ NoteAnchor(v.a, Append(t.path, r.at))
          /\ stack' = Append(below, [ind |-> t.ind, kind |-> "map", path |-> t.path, ek |-> t.ek \cup {k}])
          /\ Mark(v.m + 10 * k[2])
  \* opened block, with or without an anchor
  \/ \E anch \in BOOLEAN :
       LET r == PutMember(d0, t.path, k, Const("null"))
           p == Append(t.path, r.at)
       IN /\ KeepL(h \div 2, (IF anch THEN 3 ELSE 1) + t.ind) /\ r.new
          /\ Line(ind, pre \o k \o <<58>> \o IF anch THEN <<32, 38>> \o NewAnchor ELSE <<>>)
          /\ doc' = r.d
          /\ pend' = [ok |-> TRUE, ind |-> t.ind, path |-> p, mapOnly |-> anch, name |-> <<>>]
          /\ anchors' = IF anch THEN Append(anchors, [n |-> NewAnchor, path |-> p, leaf |-> FALSE]) ELSE anchors
          /\ stack' = Append(below, [ind |-> t.ind, kind |-> "map", path |-> t.path, ek |-> t.ek \cup {k}])
          /\ Mark(7 + 10 * k[2] + IF anch THEN 100 ELSE 0)

MapLine(t) == \E k \in Keys(t) : MemberLine(t, Base(t), t.ind, <<>>, t.below, k)
MergeLine(t) ==
  \E n \in Names(t) :
    LET src == GetP(doc, Latest(n).path)
        b == Base(t)
        o == GetP(b, t.path)
    IN /\ KeepL(h \div 2, n[Len(n)]) /\ src.t = "obj"
       /\ Line(t.ind, MergeKey \o <<58, 32, 42>> \o n)
       /\ doc' = PutP(b, t.path, AddMembers(o, src, FALSE)) /\ pend' = NoPend /\ anchors' = anchors
       /\ stack' = Append(t.below, [ind |-> t.ind, kind |-> "map", path |-> t.path, ek |-> t.ek])
       /\ Mark(300 + n[Len(n)])
SeqLine(t) ==
  LET b == Base(t)
      a == GetP(b, t.path)
      put(v) == PutP(b, t.path, Arr(Append(a.el, v)))
      here == [ind |-> t.ind, kind |-> "seq", path |-> t.path, ek |-> {}]
      p == Append(t.path, Len(a.el))
  IN \/ \E v \in Inline(t) :
          /\ KeepL(h, v.m + t.ind) /\ Line(t.ind, <<45, 32>> \o v.x) /\ doc' = put(v.d) /\ pend' = NoPend
          /\ NoteAnchor(v.a, p) /\ stack' = Append(t.below, here) /\ Mark(500 + v.m)
     \/ /\ KeepL(h, 7 + t.ind) /\ Line(t.ind, <<45>>) /\ doc' = put(Const("null")) /\ anchors' = anchors
        /\ pend' = [ok |-> TRUE, ind |-> t.ind, path |-> p, mapOnly |-> FALSE, name |-> <<>>]
        /\ stack' = Append(t.below, here) /\ Mark(600)
     \/ \E k \in {Key(IF N > 7 THEN 8 ELSE N + 1), Key(1)} :
          MemberLine([ind |-> t.ind + 2, path |-> p, ek |-> {}, kind |-> "map"], put(Obj(<<>>)), t.ind, <<45, 32>>,
                     Append(t.below, here), k)

Next == /\ N < Depth
        /\ \E t \in Targets : IF t.kind = "map" THEN MapLine(t) \/ MergeLine(t) ELSE SeqLine(t)
Spec == Init /\ [][Next]_vars

Nl(n) == IF n % 5 = 4 THEN <<13, 10>> ELSE <<10>>
Noise(n) == CASE n % 7 = 3 -> <<10>> [] n % 7 = 4 -> <<32, 32, 10>> [] n % 7 = 5 -> <<32, 35, 32, 99, 58, 32, 100, 10>> [] OTHER -> <<>>
Left == IF (h \div 3) % 4 = 1 THEN 1 + (h % 3) ELSE 0    \* the whole text may be indented
Text == FlattenSeq([i \in 1..N |-> (IF i > 1 /\ (h + i) % 3 = 0 THEN Noise(h) ELSE <<>>) \o Sp(Left) \o lines[i]
                                   \o (IF i = N /\ h % 4 = 1 THEN <<>> ELSE Nl(h))])
Old == IF h % 4 < 2 THEN Obj(<<[k |-> Key(1), v |-> Arr(<<>>)]>>) ELSE Arr(<<Str(<<111>>), Obj(<<>>)>>)
Done == N > 0 /\ ~pend.ok
(* the reader agrees with the writer *)
Agree == Done => LET c == YamlClass(Text, FALSE) IN c.c = "doc" /\ c.d = doc
Show == (Done /\ Picked(h)) =>
           Emit(CASE (h \div 5) % 3 = 0 -> <<SBuild(0, Old, "build", h % 2 = 1), SDec(0, "yaml", Text, "load", FALSE), SDumps>>
                  [] OTHER -> <<SDec(0, "yaml", Text, "new", h % 2 = 0), SDumps>>, FALSE)
Check == Agree /\ Show
=============================================================================
