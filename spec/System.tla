-------------------------------- MODULE System --------------------------------
(***************************************************************************)
(* The library as a state machine over six registers, each empty or        *)
(* holding a document.  Judge(R, e, ic) says whether the recorded call e    *)
(* (arguments and everything the caller could observe) is one the library   *)
(* may perform in state R, and gives the state after it.                    *)
(***************************************************************************)
EXTENDS GoVal, Bson, Yaml

NReg == 6
NoRegs == [i \in 1..NReg |-> None]
Yes(R) == [ok |-> TRUE, R |-> R]
No(R, why) == [ok |-> FALSE, R |-> R, why |-> why]
Chk(b, R, why) == IF b THEN Yes(R) ELSE No(R, why)
Set(R, r, d) == [R EXCEPT ![r + 1] = Some(d)]
Unset(R, r) == [R EXCEPT ![r + 1] = None]

(* positions inside a document *)
IsKeyStep(s) == "k" \in DOMAIN s
Child(d, s, ic) == IF IsKeyStep(s) THEN ByName(d, s.k, ic) ELSE ByIndex(d, s.n)
RECURSIVE Nav(_, _, _)
Nav(d, p, ic) == IF p = <<>> THEN Some(d)
                 ELSE LET c == Child(d, Head(p), ic) IN IF c.ok THEN Nav(c.v, Tail(p), ic) ELSE None
PosOf(d, s, ic) == IF ~IsKeyStep(s) THEN s.n + 1
                   ELSE IF d.t = "obj" THEN KeyIdx(d.kv, s.k, ic) ELSE NameIndex(s.k) + 1
RECURSIVE PutSteps(_, _, _, _)
PutSteps(d, p, v, ic) ==
  IF p = <<>> THEN v
  ELSE LET i == PosOf(d, Head(p), ic) IN
    IF d.t = "obj" THEN Obj(ReplaceAtIdx(d.kv, i, [k |-> d.kv[i].k, v |-> PutSteps(d.kv[i].v, Tail(p), v, ic)]))
    ELSE Arr(ReplaceAtIdx(d.el, i, PutSteps(d.el[i], Tail(p), v, ic)))
NavR(R, r, p, ic) == IF R[r + 1].ok THEN Nav(R[r + 1].v, p, ic) ELSE None
PutR(R, r, p, v, ic) == Set(R, r, PutSteps(R[r + 1].v, p, v, ic))

HasField(e, f) == f \in DOMAIN e

----------------------------------------------------------------------------
JMut(R, e, ic) ==
  LET n == NavR(R, e.r, e.p, ic)
      hasSrc == HasField(e, "src")
      o == IF hasSrc THEN [f |-> e.o.f, k |-> (IF HasField(e.o, "k") THEN e.o.k ELSE <<>>),
                           n |-> (IF HasField(e.o, "n") THEN e.o.n ELSE 0), v |-> R[e.src + 1].v]
           ELSE e.o
  IN IF e.nav # n.ok THEN No(R, "member found or missed")
     ELSE IF ~n.ok THEN Yes(R)
     ELSE IF e.ro THEN Chk(n.v.t \in Consts, R, "read-only")
     ELSE LET R1 == IF hasSrc THEN Unset(R, e.src) ELSE R
          IN Yes(PutR(R1, e.r, e.p, Mut(o, n.v, ic), ic))

JExtract(R, e, ic) ==
  LET n == NavR(R, e.r, e.p, ic)
      i == IF n.ok /\ n.v.t = "obj" THEN KeyIdx(n.v.kv, e.k, ic) ELSE 0
  IN IF e.nav # n.ok \/ e.found # (i > 0) THEN No(R, "member found or missed")
     ELSE IF i = 0 THEN Yes(R)
     ELSE Yes(Set(PutR(R, e.r, e.p, Mut([f |-> "Extract", k |-> e.k], n.v, ic), ic), e.to, n.v.kv[i].v))

JClone(R, e, ic) ==
  LET n == NavR(R, e.r, e.p, ic)
  IN IF e.nav # n.ok THEN No(R, "member found or missed")
     ELSE IF n.ok THEN Yes(Set(R, e.to, n.v)) ELSE Yes(R)

JCopy(R, e, ic) ==
  LET n == NavR(R, e.r, e.p, ic)
      t == NavR(R, e.to, e.q, ic)
  IN IF e.nav # (n.ok /\ t.ok) THEN No(R, "member found or missed")
     ELSE IF ~e.nav THEN Yes(R)
     ELSE IF e.ro THEN Chk(t.v.t \in Consts, R, "read-only")
     ELSE Yes(PutR(R, e.to, e.q, IF e.how \in {"AddFrom", "AddFromCache"} THEN AddMembers(t.v, n.v, ic) ELSE n.v, ic))

JEq(R, e, ic) ==
  LET n == NavR(R, e.r, e.p, ic)
      t == NavR(R, e.to, e.q, ic)
  IN IF e.nav # (n.ok /\ t.ok) THEN No(R, "member found or missed")
     ELSE Chk(~e.nav \/ e.got = EqDoc(n.v, t.v), R, "equality")

SameCalls(log, calls, full) ==
  /\ Len(log) = Len(calls)
  /\ \A i \in 1..Len(log) : \E j \in 1..Len(calls) :
       calls[j].path = log[i].path /\ (full => calls[j].old = log[i].old /\ calls[j].new = log[i].new)
  /\ \A j \in 1..Len(calls) : \E i \in 1..Len(log) : calls[j].path = log[i].path
JMerge(R, e, ic) ==
  LET n == NavR(R, e.r, e.p, ic)
      t == NavR(R, e.to, e.q, ic)
  IN IF e.nav # (n.ok /\ t.ok) THEN No(R, "member found or missed")
     ELSE IF ~e.nav THEN Yes(R)
     ELSE LET m == Merge(t.v, n.v, e.pol, ic)
          IN IF ~SameCalls(m.log, e.calls, e.full) THEN No(R, "callbacks")
             ELSE Yes(PutR(R, e.to, e.q, m.d, ic))

----------------------------------------------------------------------------
ReadRule(ty, v, dflt) ==
  CASE ty = "int" -> ReadInt(v)
    [] ty = "float" -> ReadFloat(v)
    [] ty = "double" -> ReadDouble(v)
    [] ty = "bool" -> ReadBool(v)
    [] ty = "datetime" -> ReadDateTime(v)
    [] ty = "gotime" -> ReadGoTime(v)
    [] ty = "duration" -> ReadDuration(v, dflt)
Addressed(d, fam, k, n, ks, ic) ==
  CASE fam = "direct" -> Some(d)
    [] fam = "name" -> ByName(d, k, ic)
    [] fam = "path" -> ByPath(d, ks, ic)
    [] fam = "index" -> ByIndex(d, n)
JRead(R, e, ic) ==
  LET n == NavR(R, e.r, e.p, ic)
  IN IF e.nav # n.ok THEN No(R, "member found or missed")
     ELSE IF ~n.ok THEN Yes(R)
     ELSE LET x == Addressed(n.v, e.fam, e.k, e.n, e.ks, ic)
          IN IF ~x.ok THEN Chk(e.got = e.def, R, "default")
             ELSE IF e.ty = "string" THEN Chk(StringOk(e.got, x.v), R, "text")
             ELSE LET v == ReadRule(e.ty, x.v, e.def) IN Chk(v.def => e.got = v.v, R, "typed read")

LookRule(d, e, ic) ==
  CASE e.what = "count" -> e.got = CountOf(d)
    [] e.what = "type" -> e.got = d.t
    [] e.what = "keyname" -> e.got = (IF d.t = "obj" /\ e.n >= 0 /\ e.n < Len(d.kv) THEN d.kv[e.n + 1].k ELSE <<>>)
    [] e.what = "items" -> /\ e.got.c = ByIndex(d, e.n)
                           /\ e.got.k = (IF d.t = "obj" /\ e.n >= 0 /\ e.n < Len(d.kv) THEN d.kv[e.n + 1].k ELSE <<>>)
    [] e.what = "has" -> LET x == ByName(d, e.k, ic) IN e.got = (IF x.ok THEN x.v.t ELSE "")
    [] e.what \in {"byname", "find"} -> e.got = ByName(d, e.k, ic)
    [] e.what = "bypath" -> e.got = ByPath(d, e.ks, ic)
    [] e.what = "byindex" -> e.got = ByIndex(d, e.n)
    [] e.what = "bin" -> IF BinLike(d.t) \/ ExtLike(d.t)
                         THEN e.got.b = d.b /\ e.got.n = Len(d.b) /\ e.got.x = (IF ExtLike(d.t) THEN d.x ELSE 0)
                         ELSE e.got = [n |-> 0, x |-> 0, b |-> <<>>]
    [] e.what = "visit" ->
         LET c == CountOf(d)
             m == Min2(c, Max2(e.n + 1, 1))
         IN e.got = [i \in 1..m |-> IF d.t = "obj" THEN d.kv[i].k ELSE <<>>]
JLook(R, e, ic) ==
  LET n == NavR(R, e.r, e.p, ic)
  IN IF e.nav # n.ok THEN No(R, "member found or missed")
     ELSE Chk(~n.ok \/ LookRule(n.v, e, ic), R, "lookup")

----------------------------------------------------------------------------
Blank(s) == \A i \in 1..Len(s) : s[i] \in {32, 9, 10, 13}
YBlankIn(s) == \A i \in 1..Len(s) : s[i] \in {32, 10, 13}
NoBom(s) == IF HasPrefix(s, <<239, 187, 191>>) THEN Drop(s, 3) ELSE s
DecText1(e) == IF e.entry = "file" /\ e.fmt \in {"json", "yaml"} THEN NoBom(e.in) ELSE e.in
ClassOf(e, ic) ==
  LET s == DecText1(e) IN
  CASE e.big -> IF e.dumped THEN (IF MpEnc(e.d) = e.in THEN [c |-> "doc", d |-> e.d] ELSE [c |-> "err"]) ELSE [c |-> "err"]
    [] e.fmt = "json" -> JsonClass(s)
    [] e.fmt = "msgpack" -> MpClass(s)
    [] e.fmt = "bson" -> BsonClass(s)
    [] OTHER -> YamlClass(s, ic)
(* loading nothing empties the value *)
EmptyIn(e) == LET s == DecText1(e) IN
  s = <<>> \/ (e.fmt = "json" /\ Blank(s)) \/ (e.fmt = "yaml" /\ YBlankIn(s))
FreshOk(e) ==
  HasField(e, "fresh") =>
    LET f == e.fresh IN
    /\ ~HasField(f, "dead") /\ ~HasField(f, "panic")
    /\ f.ok = e.ok
    /\ (e.ok => f.hasdoc = e.hasdoc)
    /\ (HasField(f, "d") /\ HasField(e, "d") => f.d = e.d)
(* the same text decoded earlier in the same history, through any entry, gave the same outcome *)
SameText(e, p) == HasField(p, "fmt") /\ p.op = "dec" /\ p.fmt = e.fmt /\ DecText1(p) = DecText1(e)
SameOutcome(e, p) == p.ok = e.ok /\ (p.ok /\ p.dumped /\ e.dumped => p.d = e.d)
(* a decoded document e.d as the specification's d *)
IsDoc(e, d) == IF HasDate(d) THEN NearDoc(d, e.d) ELSE e.d = d
JDecNew(R, e, ic) ==
  LET R0 == Unset(R, e.r)
      c == ClassOf(e, ic)
  IN IF e.inmod THEN No(R, "input bytes changed")
     ELSE IF ~e.err THEN No(R, "error without a message")
     ELSE IF ~e.ok /\ e.hasdoc THEN No(R, "error and document")
     ELSE IF ~FreshOk(e) THEN No(R, "differs from a fresh process")
     ELSE CASE c.c = "doc" ->
                 IF ~e.ok \/ ~e.hasdoc THEN No(R, "valid input refused")
                 ELSE IF e.dumped THEN (IF IsDoc(e, c.d) THEN Yes(Set(R0, e.r, e.d)) ELSE No(R, "decoded document"))
                 ELSE IF HasDate(c.d) THEN No(R, "TOOL: undumped date") ELSE Yes(Set(R0, e.r, c.d))
            [] c.c = "err" -> Chk(~e.ok, R0, "damaged input accepted")
            [] OTHER -> IF e.ok /\ e.hasdoc
                        THEN (IF e.dumped THEN Yes(Set(R0, e.r, e.d)) ELSE No(R, "TOOL: undumped open case"))
                        ELSE Yes(R0)
JDecLoad(R, e, ic) ==
  LET n == NavR(R, e.r, e.q, ic) IN
  IF e.nav # n.ok THEN No(R, "member found or missed")
  ELSE IF ~n.ok THEN Yes(R)
  ELSE IF e.inmod THEN No(R, "input bytes changed")
  ELSE IF ~e.err THEN No(R, "error without a message")
  ELSE IF e.ro THEN Chk(n.v.t \in Consts /\ ~e.ok /\ (e.dumped => e.d = n.v), R, "load into a constant")
  ELSE LET put(d) == IF e.dumped THEN (IF IsDoc(e, d) THEN Yes(PutR(R, e.r, e.q, e.d, ic)) ELSE No(R, "loaded document"))
                     ELSE IF HasDate(d) THEN No(R, "TOOL: undumped date") ELSE Yes(PutR(R, e.r, e.q, d, ic))
       IN IF EmptyIn(e) THEN (IF ~e.ok THEN No(R, "empty input refused") ELSE put(Cleared(n.v)))
          ELSE LET c == ClassOf(e, ic) IN
            CASE c.c = "doc" -> IF e.ok THEN put(c.d) ELSE No(R, "valid input refused")
              [] c.c = "err" -> IF e.ok THEN No(R, "damaged input accepted") ELSE put(Const("null"))
              [] OTHER -> IF ~e.ok THEN put(Const("null"))
                          ELSE IF e.dumped THEN Yes(PutR(R, e.r, e.q, e.d, ic)) ELSE No(R, "TOOL: undumped open case")
JDec(R, e, ic) == IF e.entry \in {"load", "unmarshal"} THEN JDecLoad(R, e, ic) ELSE JDecNew(R, e, ic)

EncOk(e, d) ==
  LET s == Drop(e.out, Len(e.pre)) IN
  /\ HasPrefix(e.out, e.pre)
  /\ e.preok
  /\ CASE e.fmt = "json" -> ~e.err /\ JsonOutOk(s, d, e.style, e.escdt, e.built)
       [] e.fmt = "msgpack" -> MpEncodable(d) => s = MpEnc(d)
       [] e.fmt = "bson" -> BsonEncodable(d) => ~e.err /\ s = BsonDoc(d)
JEnc(R, e, ic) ==
  LET n == NavR(R, e.r, e.p, ic)
  IN IF e.nav # n.ok THEN No(R, "member found or missed")
     ELSE Chk(~n.ok \/ EncOk(e, n.v), R, "encoding")

----------------------------------------------------------------------------
(* where a store into d put its value, giving x *)
IndexSlot(d, x, n) ==
  IF x.t # "arr" \/ x.el = <<>> THEN None
  ELSE IF d.t = "arr" /\ n >= 0 /\ n < Len(d.el) /\ n < Len(x.el) THEN Some(x.el[n + 1]) ELSE Some(x.el[Len(x.el)])
KeySlot(d, x, k, ic) ==
  IF d.t = "arr" /\ NameIndex(k) # -1 THEN IndexSlot(d, x, NameIndex(k)) ELSE IF x.t = "obj" THEN ByName(x, k, ic) ELSE None
(* the Go value g stored over old gave d *)
GoOver(how, g, old, d) ==
  CASE g.g = "int" /\ old.t = "tsp" -> d = StoreInt(old, g.i)
    [] g.g = "bin" /\ BinLike(old.t) -> d = StoreBin(old, g.b)
    [] g.g = "bin" /\ ExtLike(old.t) /\ how = "root" -> d = StoreBin(old, g.b)
    [] g.g = "dbl" /\ old.t = "dt" /\ how = "root" -> d = Dt(g.d)
    [] OTHER -> GvMatch(g, d)
JSetGo(R, e, ic) ==
  IF e.how = "new" THEN (IF GvMatch(e.gv, e.d) THEN Yes(Set(R, e.r, e.d)) ELSE No(R, "document of the Go value"))
  ELSE LET n == NavR(R, e.r, e.p, ic) IN
    IF e.nav # n.ok THEN No(R, "member found or missed")
    ELSE IF ~n.ok THEN Yes(R)
    ELSE IF e.ro THEN Chk(n.v.t \in Consts /\ e.d = R[e.r + 1].v, R, "read-only")
    ELSE LET x == Nav(e.d, e.p, ic) IN
      IF ~x.ok THEN No(R, "document of the Go value")
      ELSE LET last == CASE e.how = "root" -> Some(x.v)
                         [] e.how = "key" -> KeySlot(n.v, x.v, e.k, ic)
                         [] OTHER -> IndexSlot(n.v, x.v, e.n)
           IN IF ~last.ok THEN No(R, "document of the Go value")
              ELSE LET want == CASE e.how = "root" -> last.v
                                 [] e.how = "key" -> PutKey(n.v, e.k, last.v, ic)
                                 [] OTHER -> PutIndex(n.v, e.n, last.v)
                       all == PutSteps(R[e.r + 1].v, e.p, want, ic)
                       old == CASE e.how = "root" -> n.v
                                [] e.how = "key" -> OldAt(n.v, e.k, ic)
                                [] OTHER -> OldIx(n.v, e.n)
                   IN IF GoOver(e.how, e.gv, old, last.v) /\ e.d = all THEN Yes(Set(R, e.r, all))
                      ELSE No(R, "document of the Go value")
JToGo(R, e, ic) ==
  LET n == NavR(R, e.r, e.p, ic)
  IN IF e.nav # n.ok THEN No(R, "member found or missed")
     ELSE Chk(~n.ok \/ ToGoOk(e, n.v), R, "converted Go value")

Bom == <<239, 187, 191>>
JFSave(R, e) ==
  LET body == IF e.bom THEN Drop(e.bytes, 3) ELSE e.bytes
  IN Chk(e.ok /\ (e.bom => HasPrefix(e.bytes, Bom)) /\ R[e.r + 1].ok
         /\ JsonOutOk(body, R[e.r + 1].v, "ansi", FALSE, e.built), R, "file content")

(* A file system of five names: three plain ones, a directory and one below a missing directory.  Files hold bytes; a call
   changes the file it names and no other, and a call that fails changes nothing. *)
NFile == 5
NoFiles == [i \in 1..NFile |-> None]
YesF(R, F) == [ok |-> TRUE, R |-> R, F |-> F]
NoF(R, F, why) == [ok |-> FALSE, R |-> R, F |-> F, why |-> why]
JFileDo(R, F, e, ic) ==
  LET i == e.f + 1
      c == F[i]
      d == IF R[e.r + 1].ok THEN R[e.r + 1].v ELSE Const("null")
      IsBin == BinLike(d.t) \/ ExtLike(d.t)
  IN CASE e.o = "put" -> IF e.skip THEN YesF(R, F) ELSE YesF(R, [F EXCEPT ![i] = Some(e.b)])
       [] e.o = "del" -> YesF(R, [F EXCEPT ![i] = None])
       [] e.o = "savej" ->
            IF i > 3 THEN (IF e.ok THEN NoF(R, F, "saved where no file can be") ELSE YesF(R, F))
            ELSE IF ~e.ok \/ ~e.fs[i].ok THEN NoF(R, F, "not saved")
            ELSE LET j == JFSave(R, [r |-> e.r, bom |-> e.bom, bytes |-> e.fs[i].v, ok |-> e.ok, built |-> e.built])
                 IN IF j.ok THEN YesF(R, [F EXCEPT ![i] = e.fs[i]]) ELSE NoF(R, F, j.why)
       [] e.o = "load" ->
            IF ~c.ok THEN (IF e.ok \/ e.hasdoc \/ ~e.err THEN NoF(R, F, "loaded from no file") ELSE YesF(Unset(R, e.r), F))
            ELSE LET j == JDecNew(R, [op |-> "dec", fmt |-> e.fmt, entry |-> "file", in |-> c.v, r |-> e.r, ok |-> e.ok, err |-> e.err, hasdoc |-> e.hasdoc,
                                      inmod |-> FALSE, dumped |-> e.ok /\ e.hasdoc, big |-> FALSE] @@ (IF e.ok /\ e.hasdoc THEN [d |-> e.d] ELSE [d |-> Const("null")]), ic)
                 IN IF j.ok THEN YesF(j.R, F) ELSE NoF(R, F, j.why)
       [] e.o = "bsave" ->
            IF ~IsBin THEN YesF(R, F)
            ELSE IF i > 3 THEN (IF e.ok THEN NoF(R, F, "saved where no file can be") ELSE YesF(R, F))
            ELSE IF e.ok THEN YesF(R, [F EXCEPT ![i] = Some(d.b)]) ELSE NoF(R, F, "not saved")
       [] e.o = "bload" ->
            IF ~IsBin THEN YesF(R, F)
            ELSE IF ~c.ok THEN (IF e.ok THEN NoF(R, F, "loaded from no file") ELSE YesF(R, F))
            ELSE IF e.ok THEN YesF(Set(R, e.r, StoreBin(d, c.v)), F) ELSE NoF(R, F, "not loaded")
       [] e.o = "read" ->
            IF ~c.ok THEN (IF e.ok THEN NoF(R, F, "read from no file") ELSE YesF(R, F))
            ELSE IF e.ok /\ e.got = c.v THEN YesF(R, F) ELSE NoF(R, F, "file content read")
JFile(R, F, e, ic) ==
  IF e.st # "ok" THEN NoF(R, F, "panic")
  ELSE LET j == JFileDo(R, F, e, ic)
       IN IF ~j.ok THEN j ELSE IF j.F # e.fs THEN NoF(R, F, "files") ELSE j

JDump(R, e) ==
  IF ~R[e.r + 1].ok THEN No(R, "dump of an empty register")
  ELSE Chk(e.d = R[e.r + 1].v \/ (e.via = "name" /\ ~WellFormed(R[e.r + 1].v)), R, "content")

Judge(R, e, ic) ==
  IF e.st # "ok" THEN No(R, "panic")
  ELSE CASE e.op = "new" -> Yes(Set(R, e.r, Zero(e.kd)))
         [] e.op \in {"drop", "free"} -> Yes(Unset(R, e.r))
         [] e.op = "build" -> Yes(Set(R, e.r, e.v))
         [] e.op = "dump" -> JDump(R, e)
         [] e.op = "bufs" -> Chk(e.ok, R, "caller's bytes changed")
         [] e.op = "mut" -> JMut(R, e, ic)
         [] e.op = "extract" -> JExtract(R, e, ic)
         [] e.op = "clone" -> JClone(R, e, ic)
         [] e.op = "copy" -> JCopy(R, e, ic)
         [] e.op = "eq" -> JEq(R, e, ic)
         [] e.op = "merge" -> JMerge(R, e, ic)
         [] e.op = "read" -> JRead(R, e, ic)
         [] e.op = "look" -> JLook(R, e, ic)
         [] e.op = "dec" -> JDec(R, e, ic)
         [] e.op = "enc" -> JEnc(R, e, ic)
         [] e.op = "setgo" -> JSetGo(R, e, ic)
         [] e.op = "togo" -> JToGo(R, e, ic)
         [] e.op = "rt" -> Chk(e.same, R, "round trip")
         [] e.op = "fsave" -> JFSave(R, e)
         [] e.op = "nofile" -> Chk(e.err /\ ~e.doc, R, "missing file")
         [] e.op = "binfile" -> Chk(e.ok /\ e.file = e.b /\ e.back = e.exp, R, "binary file")
         [] OTHER -> No(R, "TOOL: unknown event")
=============================================================================
