-------------------------------- MODULE MCFile --------------------------------
(***************************************************************************)
(* Histories of saves and loads over two files, a directory and a name      *)
(* below a missing directory, with two registers.  A file holds what was    *)
(* last put or saved into it; here a saved document is kept as such and     *)
(* the trace specification compares the bytes.  Laws: what was saved is     *)
(* what is loaded, whatever was in the file before; nothing else changes.   *)
(***************************************************************************)
EXTENDS Script

VARIABLES regs, disk, hist, last
vars == <<regs, disk, hist, last>>

M(k, v) == [k |-> k, v |-> v]
One == IntD(I64Of(1))
Long == Str([i \in 1..70 |-> 97 + (i % 26)])
Docs == <<Obj(<<M(<<97, 34>>, One), M(<<98>>, Arr(<<Str(<<195, 169, 92>>), Const("null")>>))>>), Arr(<<Long, Const("true")>>), Str(<<>>), Bin(<<1, 239, 187, 191>>), Ext(7, <<9>>), Bin(<<>>), IntD(I64Of(5)), Arr(<<>>)>>
(* contents written by somebody else *)
Raw == <<<<>>,
         <<123, 34, 97, 34, 58, 49, 125>>,                      \* {"a":1}
         <<239, 187, 191, 91, 49, 93>>,                         \* BOM [1]
         <<239, 187, 191>>,
         <<91, 49, 44>>,                                        \* [1,
         <<129, 161, 97, 1>>,                                   \* {a:1} in MsgPack
         <<97, 58, 32, 49, 10>>,                                \* a: 1
         <<239, 187, 191, 98, 58, 32, 120, 10>>,                \* BOM b: x
         <<239, 187, 191, 53>>,                                 \* BOM 5
         <<239, 187, 191, 91, 93>>,                             \* BOM []
         <<239, 187>>,
         <<53>>,
         <<192>>>>
Names == 0..4
Plain(f) == f < 3
Put(v) == [t |-> "raw", v |-> v]
Saved(d, bom) == [t |-> "doc", d |-> d, bom |-> bom]
Nothing == [t |-> "none"]
JsonSafe(d) == AllNodes(d, LAMBDA x : x.t \in {"obj", "arr", "str", "int", "null", "true", "false"})
SFile(act, f, r) == [op |-> "file", act |-> act, f |-> f, r |-> r]

(* actions *)
Acts == [a : {"build"}, r : {0, 1}, i : 1..Len(Docs)]
  \cup [a : {"put"}, f : {0, 1}, i : 1..Len(Raw)]
  \cup [a : {"del"}, f : {0, 1}]
  \cup [a : {"savej"}, f : {0, 1, 3, 4}, r : {0, 1}, bom : BOOLEAN, fmtd : BOOLEAN]
  \cup [a : {"load"}, f : {0, 1, 2, 3}, r : {0, 1}, fmt : {"json", "msgpack", "yaml"}]
  \cup [a : {"bsave", "bload"}, f : {0, 1, 3, 4}, r : {0, 1}]
  \cup [a : {"read"}, f : {0, 1, 2, 3}]
  \cup [a : {"set"}, r : {0, 1}]
ActSeq == SetToSeq(Acts)
Reg(r) == regs[r + 1]
IsBinReg(r) == Reg(r).ok /\ (BinLike(Reg(r).v.t) \/ ExtLike(Reg(r).v.t))
Text(f) == IF disk[f].t = "raw" THEN disk[f].v ELSE <<>>
RawClass(fmt, s) == LET u == IF fmt \in {"json", "yaml"} THEN NoBom(s) ELSE s IN
  CASE fmt = "json" -> JsonClass(u) [] fmt = "msgpack" -> MpClass(u) [] OTHER -> YamlClass(u, FALSE)
(* what loading file f as fmt gives: a document, nothing, or (FALSE) something the model leaves to the trace *)
Outcome(f, fmt) ==
  CASE disk[f].t = "none" -> [c |-> "err"]
    [] disk[f].t = "raw" -> RawClass(fmt, disk[f].v)
    [] OTHER -> IF fmt = "json" /\ JsonSafe(disk[f].d) THEN [c |-> "doc", d |-> disk[f].d] ELSE [c |-> "any"]
Enabled1(x) ==
  CASE x.a \in {"savej", "bsave", "bload"} -> Reg(x.r).ok
    [] x.a = "set" -> Reg(x.r).ok
    [] x.a = "load" -> IF Plain(x.f) THEN Outcome(x.f, x.fmt).c # "any" ELSE TRUE
    [] x.a \in {"bsave", "bload"} -> disk[x.f].t # "doc"
    [] OTHER -> TRUE
(* a binary read back from a saved text is left to the trace *)
Known1(x) == ~(x.a = "bload" /\ Plain(x.f) /\ disk[x.f].t = "doc")
Do(x) ==
  CASE x.a = "build" -> /\ regs' = Set(regs, x.r, Docs[x.i]) /\ disk' = disk
                        /\ hist' = Append(hist, SBuild(x.r, Docs[x.i], "build", x.i % 2 = 0))
    [] x.a = "put" -> /\ disk' = [disk EXCEPT ![x.f] = Put(Raw[x.i])] /\ regs' = regs
                      /\ hist' = Append(hist, SFile("put", x.f, 0) @@ [in |-> Raw[x.i]])
    [] x.a = "del" -> /\ disk' = [disk EXCEPT ![x.f] = Nothing] /\ regs' = regs /\ hist' = Append(hist, SFile("del", x.f, 0))
    [] x.a = "savej" -> /\ disk' = (IF Plain(x.f) THEN [disk EXCEPT ![x.f] = Saved(Reg(x.r).v, x.bom)] ELSE disk) /\ regs' = regs
                        /\ hist' = Append(hist, SFile("savej", x.f, x.r) @@ [bom |-> x.bom, fmtd |-> x.fmtd])
    [] x.a = "load" -> LET o == IF Plain(x.f) THEN Outcome(x.f, x.fmt) ELSE [c |-> "err"] IN
                       /\ regs' = (IF o.c = "doc" THEN Set(regs, x.r, o.d) ELSE Unset(regs, x.r)) /\ disk' = disk
                       /\ hist' = Append(hist, SFile("load", x.f, x.r) @@ [fmt |-> x.fmt, cached |-> (Len(hist) % 2 = 0)])
    [] x.a = "bsave" -> /\ disk' = (IF Plain(x.f) /\ IsBinReg(x.r) THEN [disk EXCEPT ![x.f] = Put(Reg(x.r).v.b)] ELSE disk) /\ regs' = regs
                        /\ hist' = Append(hist, SFile("bsave", x.f, x.r))
    [] x.a = "bload" -> /\ regs' = (IF Plain(x.f) /\ IsBinReg(x.r) /\ disk[x.f].t = "raw" THEN Set(regs, x.r, StoreBin(Reg(x.r).v, Text(x.f))) ELSE regs) /\ disk' = disk
                        /\ hist' = Append(hist, SFile("bload", x.f, x.r))
    [] x.a = "read" -> /\ UNCHANGED <<regs, disk>> /\ hist' = Append(hist, SFile("read", x.f, 0))
    [] OTHER -> LET o == [f |-> "SetKeyString", k |-> <<98>>, s |-> <<110, 92>>] IN
                /\ regs' = Set(regs, x.r, Mut(o, Reg(x.r).v, FALSE)) /\ disk' = disk
                /\ hist' = Append(hist, SMut(x.r, <<>>, o))
Num == [x \in Acts |-> CHOOSE i \in 1..Len(ActSeq) : ActSeq[i] = x]
RECURSIVE Hash(_, _)
Hash(s, h) == IF s = <<>> THEN h ELSE Hash(Tail(s), (h * 61 + Head(s)) % 100003)
Init == /\ \E i \in 1..Len(Docs), j \in {1, 4} :
              /\ regs = Set(Set(NoRegs, 0, Docs[i]), 1, Docs[j])
              /\ hist = <<SBuild(0, Docs[i], "build", i % 2 = 1), SBuild(1, Docs[j], "build", FALSE)>>
              /\ last = <<i * 10 + j>>
        /\ disk = [f \in 0..2 |-> Nothing]
Next == /\ Len(hist) < 2 + Depth
        /\ \E x \in 1..Len(ActSeq) :
              /\ Keep(Hash(last, 7), x) /\ Enabled1(ActSeq[x]) /\ Known1(ActSeq[x])
              /\ Do(ActSeq[x]) /\ last' = Append(last, x)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
n == Hash(last, 3)
ActOf == IF Len(last) = 1 THEN [a |-> "none"] ELSE ActSeq[last[Len(last)]]
(* what is saved is what is loaded *)
Back == (ActOf.a = "savej" /\ Plain(ActOf.f) /\ JsonSafe(Reg(ActOf.r).v)) =>
          LET o == Outcome(ActOf.f, "json") IN o.c = "doc" /\ o.d = Reg(ActOf.r).v
(* a byte order mark makes no difference to the text formats *)
BomLaw == \A f \in 0..2 : disk[f].t = "raw" /\ HasPrefix(disk[f].v, Bom) => RawClass("json", disk[f].v) = JsonClass(Drop(disk[f].v, 3))
Show == (Len(hist) = 2 + Depth /\ Picked(n)) =>
   Emit(hist \o <<SDumps, SFile("read", 0, 0), SFile("load", 0, 2) @@ [fmt |-> "json", cached |-> FALSE], SFile("read", 1, 0), SDumps>>, FALSE)
Check == Back /\ BomLaw /\ Show
=============================================================================
