-------------------------------- MODULE MCPool --------------------------------
(***************************************************************************)
(* The value caches (cache.go) as an implementation-level model.            *)
(* A slab hands out slots one after the other and moves to a larger array   *)
(* when full; slots already handed out stay in the old array.  A document   *)
(* made "cached" owns a slab; freeing it returns the slab to the pool, from *)
(* where any goroutine may get it.  Two goroutines, each with two documents,*)
(* interleave at the level of pool operations and slot hand-outs.           *)
(* Invariant: no slot is part of two live documents or twice of one, and no *)
(* slab in the pool belongs to a live document.  The histories of calls are *)
(* replayed; the contents must be those of independent documents.           *)
(***************************************************************************)
EXTENDS Script

CONSTANT Slabs
VARIABLES slab,   \* [Slabs -> [len, cap, gen, made]]
          pool,   \* slabs in the pool
          doc,    \* [register -> None or [s, nodes, n, root]]
          pc,     \* [goroutine -> what it is in the middle of]
          hist, h
vars == <<slab, pool, doc, pc, hist, h>>
Procs == {1, 2}
RegsOf(p) == IF p = 1 THEN {0, 1} ELSE {2, 3}
Nothing == [on |-> FALSE]
Idle == [at |-> "idle"]
Init == /\ slab = [s \in Slabs |-> [len |-> 0, cap |-> 2, gen |-> 0, made |-> FALSE]]
        /\ pool = {} /\ doc = [r \in 0..3 |-> Nothing] /\ pc = [p \in Procs |-> Idle] /\ hist = <<>> /\ h = Salt % 1000
(* hand out one slot of slab s *)
Grown(s) == LET x == slab[s] IN IF x.len < x.cap THEN [x EXCEPT !.len = @ + 1]
                                ELSE [x EXCEPT !.len = @ + 1, !.cap = @ * 2, !.gen = @ + 1]
SlotOf(s) == LET x == Grown(s) IN <<s, x.gen, x.len>>
Key(i) == <<107, 48 + (i % 10)>>
Val(r, i) == [f |-> "SetKeyString", k |-> Key(i), s |-> <<100, 48 + r, 48 + (i % 10), 48 + (Len(hist) % 10)>>]
Log(steps, x) == hist' = hist \o steps /\ h' = (h * 31 + x) % 999983
Quiet == UNCHANGED <<hist, h>>
Idles(p) == pc[p].at = "idle"
Calls == Cardinality({i \in 1..Len(hist) : hist[i].op = "dumpall"})

(* get a slab: from the pool, or a new one *)
NewGet(p) == \E r \in RegsOf(p) : \E s \in Slabs :
  /\ Idles(p) /\ ~doc[r].on /\ (s \in pool \/ (~slab[s].made /\ \A q \in Slabs : q < s => slab[q].made))
  /\ Keep(h, s + r) /\ Calls < Depth
  /\ pc' = [pc EXCEPT ![p] = [at |-> "got", r |-> r, s |-> s, from |-> -1]]
  /\ pool' = pool \ {s} /\ slab' = [slab EXCEPT ![s].made = TRUE] /\ UNCHANGED doc /\ Quiet
NewRoot(p) ==
  /\ pc[p].at = "got" /\ pc[p].from = -1
  /\ LET s == pc[p].s
         r == pc[p].r IN
     /\ slab' = [slab EXCEPT ![s] = Grown(s)]
     /\ doc' = [doc EXCEPT ![r] = [on |-> TRUE, s |-> s, nodes |-> {SlotOf(s)}, root |-> SlotOf(s), n |-> 0]]
     /\ Log(<<[op |-> "new", r |-> r, kd |-> "obj", cached |-> TRUE], SDumps>>, 2 + r)
  /\ pc' = [pc EXCEPT ![p] = Idle] /\ UNCHANGED pool
(* one more member: a slot *)
Add(p) == \E r \in RegsOf(p) :
  /\ Idles(p) /\ doc[r].on /\ doc[r].n < 6 /\ Keep(h \div 2, r) /\ Calls < Depth
  /\ LET s == doc[r].s
         i == doc[r].n * 2 IN
     /\ slab' = [slab EXCEPT ![s] = Grown(s)]
     /\ doc' = [doc EXCEPT ![r].nodes = @ \cup {SlotOf(s)}, ![r].n = @ + 1]
     /\ Log(<<SMut(r, <<>>, Val(r, i)), SMut(r, <<>>, Val(r, i + 1)), SDumps>>, 10 + r)
  /\ UNCHANGED <<pool, pc>>
(* clearing keeps the root slot *)
Clear(p) == \E r \in RegsOf(p) :
  /\ Idles(p) /\ doc[r].on /\ doc[r].n > 0 /\ Keep(h \div 3, r) /\ Calls < Depth
  /\ slab' = [slab EXCEPT ![doc[r].s].len = 1]
  /\ doc' = [doc EXCEPT ![r].nodes = {doc[r].root}, ![r].n = 0]
  /\ Log(<<SMut(r, <<>>, [f |-> "Clear"]), SDumps>>, 20 + r) /\ UNCHANGED <<pool, pc>>
(* a clone with its own slab: get, then one slot per node *)
CloneGet(p) == \E r, q \in RegsOf(p) : \E s \in Slabs :
  /\ Idles(p) /\ doc[r].on /\ ~doc[q].on /\ (s \in pool \/ (~slab[s].made /\ \A z \in Slabs : z < s => slab[z].made))
  /\ Keep(h \div 5, s) /\ Calls < Depth
  /\ pc' = [pc EXCEPT ![p] = [at |-> "got", r |-> q, s |-> s, from |-> r]]
  /\ pool' = pool \ {s} /\ slab' = [slab EXCEPT ![s].made = TRUE] /\ UNCHANGED doc /\ Quiet
CloneSlot(p) ==
  /\ pc[p].at = "got" /\ pc[p].from >= 0
  /\ LET s == pc[p].s
         q == pc[p].r
         f == pc[p].from
         have == IF doc[q].on THEN doc[q].nodes ELSE {}
         last == Cardinality(have) = doc[f].n
     IN /\ slab' = [slab EXCEPT ![s] = Grown(s)]
        /\ doc' = [doc EXCEPT ![q] = [on |-> TRUE, s |-> s, nodes |-> have \cup {SlotOf(s)}, root |-> IF have = {} THEN SlotOf(s) ELSE doc[q].root,
                                      n |-> Cardinality(have)]]
        /\ IF last THEN pc' = [pc EXCEPT ![p] = Idle] /\ Log(<<SClone(f, <<>>, q, TRUE), SDumps>>, 30 + q)
           ELSE pc' = pc /\ Quiet
  /\ UNCHANGED pool
(* freeing: clear, forget the slab, reset it, put it into the pool *)
Free1(p) == \E r \in RegsOf(p) :
  /\ Idles(p) /\ doc[r].on /\ Keep(h \div 7, r) /\ Calls < Depth
  /\ pc' = [pc EXCEPT ![p] = [at |-> "freeing", r |-> r, s |-> doc[r].s]]
  /\ doc' = [doc EXCEPT ![r] = Nothing] /\ slab' = [slab EXCEPT ![doc[r].s].len = 1] /\ UNCHANGED pool /\ Quiet
Free2(p) == /\ pc[p].at = "freeing" /\ pc' = [pc EXCEPT ![p].at = "put"] /\ slab' = [slab EXCEPT ![pc[p].s].len = 0]
            /\ UNCHANGED <<pool, doc>> /\ Quiet
Free3(p) == /\ pc[p].at = "put" /\ pc' = [pc EXCEPT ![p] = Idle] /\ pool' = pool \cup {pc[p].s}
            /\ Log(<<SFree(pc[p].r), SDumps>>, 40 + pc[p].r) /\ UNCHANGED <<slab, doc>>
(* the runtime may empty the pool *)
Lose == \E s \in pool : pool' = pool \ {s} /\ slab' = [slab EXCEPT ![s] = [len |-> 0, cap |-> 2, gen |-> @.gen + 1, made |-> FALSE]]
                        /\ (\A q \in Slabs : q > s => ~slab[q].made) /\ Thin = 1 /\ UNCHANGED <<doc, pc>> /\ Quiet
Next == Lose \/ \E p \in Procs : NewGet(p) \/ NewRoot(p) \/ Add(p) \/ Clear(p) \/ CloneGet(p) \/ CloneSlot(p) \/ Free1(p) \/ Free2(p) \/ Free3(p)
Spec == Init /\ [][Next]_vars

Live == {r \in 0..3 : doc[r].on}
Holders(s) == {r \in Live : doc[r].s = s}
NoAlias == /\ \A r, q \in Live : r # q => doc[r].nodes \cap doc[q].nodes = {} /\ doc[r].s # doc[q].s
           /\ \A r \in Live : Cardinality(doc[r].nodes) = doc[r].n + 1 /\ doc[r].root \in doc[r].nodes
           /\ \A r \in Live : doc[r].s \notin pool
           /\ \A p, q \in Procs : p # q /\ ~Idles(p) /\ ~Idles(q) => pc[p].s # pc[q].s
           /\ \A p \in Procs : ~Idles(p) => pc[p].s \notin pool
           /\ \A s \in pool : slab[s].len = 0
Show == (Calls = Depth /\ (\A p \in Procs : Idles(p)) /\ Picked(h)) => Emit(hist, FALSE)
Check == NoAlias /\ Show
=============================================================================
