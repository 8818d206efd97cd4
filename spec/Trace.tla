-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation.  The trace file holds one recorded history per line;  *)
(* every history is one behaviour.  A recorded call that the library model *)
(* does not allow ends its history in l = -1 and is printed.               *)
(***************************************************************************)
EXTENDS System, Json, IOUtils

Chunks == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c,      \* the history being followed
          l,      \* next event, -1 after a mismatch
          regs,   \* the registers of the model
          files,  \* the driver's files
          fold    \* keys are compared up to case (dxsvalue.IgnoreCase)
vars == <<c, l, regs, files, fold>>
Init == c \in 1..Len(Chunks) /\ l = 1 /\ regs = NoRegs /\ files = NoFiles /\ fold = Chunks[c].ic
Step ==
  /\ l > 0 /\ l <= Len(Chunks[c].ev)
  /\ c' = c
  /\ fold' = IF Chunks[c].ev[l].op = "fold" THEN Chunks[c].ev[l].on ELSE fold
  /\ LET e == Chunks[c].ev[l]
         j0 == IF e.op = "fold" THEN Yes(regs) ELSE IF e.op = "file" THEN JFile(regs, files, e, fold) ELSE Judge(regs, e, fold)
         j == IF j0.ok /\ HasField(e, "prev")
              THEN LET p == Chunks[c].ev[e.prev] IN
                   IF e.prev < l /\ SameText(e, p) THEN Chk(SameOutcome(e, p), j0.R, "the same input gave another outcome before")
                   ELSE No(regs, "TOOL: not the same input")
              ELSE j0
     IN IF j.ok THEN l' = l + 1 /\ regs' = j.R /\ files' = (IF e.op = "file" THEN j.F ELSE files)
        ELSE /\ PrintT("@@MISMATCH " \o ToString(c) \o " " \o ToString(l) \o " " \o j.why)
             /\ l' = -1 /\ regs' = regs /\ files' = files
Next == Step
Spec == Init /\ [][Next]_vars
Conforms == l # -1
View == <<c, l>>
=============================================================================
