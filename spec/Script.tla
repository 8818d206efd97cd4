-------------------------------- MODULE Script --------------------------------
(***************************************************************************)
(* Models print behaviours as scripts; the driver replays them into the    *)
(* library and Trace.tla judges the recorded calls.  SALT and PARTS select *)
(* a part of the behaviours (behaviour number n is printed when            *)
(* (n + SALT) mod PARTS = 0), so different seeds replay different parts.    *)
(***************************************************************************)
EXTENDS System, Json, IOUtils, TLCExt, FiniteSets

EnvNum(name, dflt) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE dflt
Salt == EnvNum("SALT", 0)
Parts == EnvNum("PARTS", 1)
Depth == EnvNum("DEPTH", 2)
(* THIN > 1 keeps about one step in THIN, differently in every state: deep histories instead of all *)
Thin == EnvNum("THIN", 1)
Keep(n, x) == Thin = 1 \/ ((n % 1000) * 7919 + (x % 1000) * 104729 + Salt * 13) % Thin = 0
Picked(n) == (n + Salt) % Parts = 0
Emit(steps, ic) == PrintT("@@SCRIPT " \o ToJson([ic |-> ic, steps |-> steps]))
(* paths *)
SK(k) == [k |-> k]
SN(n) == [n |-> n]
(* steps *)
SBuild(r, v, via, cached) == [op |-> "build", r |-> r, v |-> v, via |-> via, cached |-> cached]
SDumps == [op |-> "dumpall"]
SDump(r, via) == [op |-> "dump", r |-> r, via |-> via]
SMut(r, p, o) == [op |-> "mut", r |-> r, p |-> p, o |-> o]
SMutSrc(r, p, o, src) == [op |-> "mut", r |-> r, p |-> p, o |-> o, src |-> src]
SClone(r, p, to, cached) == [op |-> "clone", r |-> r, p |-> p, to |-> to, cached |-> cached]
SCopy(r, p, to, q, how) == [op |-> "copy", r |-> r, p |-> p, to |-> to, q |-> q, how |-> how]
SMerge(r, p, to, q, pol) == [op |-> "merge", r |-> r, p |-> p, to |-> to, q |-> q, pol |-> pol]
SEq(r, p, to, q) == [op |-> "eq", r |-> r, p |-> p, to |-> to, q |-> q]
SExtract(r, p, k, to) == [op |-> "extract", r |-> r, p |-> p, k |-> k, to |-> to]
SFree(r) == [op |-> "free", r |-> r]
SDec(r, fmt, in, entry, cached) == [op |-> "dec", r |-> r, fmt |-> fmt, in |-> in, entry |-> entry, cached |-> cached]
SEnc(r, p, fmt, style, to) == [op |-> "enc", r |-> r, p |-> p, fmt |-> fmt, style |-> style, keep |-> "dec", to |-> to, fmtd |-> FALSE]
SRead(r, p, fam, ty, k, n, ks) == [op |-> "read", r |-> r, p |-> p, fam |-> fam, ty |-> ty, k |-> k, n |-> n, ks |-> ks]
SLook(r, p, what, k, n, ks) == [op |-> "look", r |-> r, p |-> p, what |-> what, k |-> k, n |-> n, ks |-> ks]
=============================================================================
