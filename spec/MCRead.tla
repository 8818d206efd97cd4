-------------------------------- MODULE MCRead --------------------------------
(***************************************************************************)
(* Every typed read of every kind of value through every accessor family,   *)
(* with present and missing names, positions and paths.                     *)
(***************************************************************************)
EXTENDS Script

VARIABLES v, ty, fam, on
vars == <<v, ty, fam, on>>
I(n) == IntD(I64Of(n))
M(k, x) == [k |-> k, v |-> x]
T(s) == Str(s)
D10(n) == Dt(ScaledF64(n, 10))
Scalars == {I(0), I(1), I(-1), I(16777217), IntD(<<0, 32, 0, 0, 0, 0, 0, 1>>), IntD(<<127, 255, 255, 255, 255, 255, 255, 255>>), IntD(<<128, 0, 0, 0, 0, 0, 0, 0>>), I(45000), IntD(<<16, 0, 0, 16, 0, 0, 0, 1>>), IntD(<<239, 255, 255, 239, 255, 255, 255, 255>>),
   Dbl(DZero), Dbl(DNegZero), Dbl(ScaledF64(5, 1)), Dbl(ScaledF64(-5, 1)), Dbl(ScaledF64(1, 2)), Dbl(<<63, 185, 153, 153, 153, 153, 153, 154>>), Dbl(<<66, 0, 0, 0, 0, 0, 0, 0>>), Dbl(<<71, 239, 255, 255, 224, 0, 0, 0>>), Dbl(ScaledF64(46080001, 10)),
   Flt(Zeros(4)), Flt(<<128, 0, 0, 0>>), Flt(<<191, 0, 0, 0>>), Flt(<<61, 204, 204, 205>>), Flt(<<75, 128, 0, 0>>),
   T(<<>>), T(<<49>>), T(<<45, 49>>), T(<<48>>), T(<<43, 49>>), T(<<49, 46, 53>>), T(<<46, 53>>), T(<<49, 101, 50>>), T(<<32, 49>>), T(<<49, 97>>),
   T(<<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>), T(<<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 56>>),
   T(<<45, 57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 56>>),
   T(YTrue), T(<<84, 82, 85, 69>>), T(<<84, 114, 117, 101>>), T(YFalse), T(YNull), T(<<116, 114, 117>>), T(<<34, 10, 92>>), T(<<195, 169, 47>>),
   T(<<50,48,50,49,45,48,51,45,48,53,32,49,50,58,48,48,58,48,48>>), T(<<50,48,50,49,45,48,51,45,48,53,84,49,50,58,48,48,58,48,48,90>>),
   T(<<50,48,50,49,47,48,51,47,48,53,32,50,51,58,53,57,58,53,57>>), T(<<50,48,50,49,45,49,51,45,48,53,32,49,50,58,48,48,58,48,48>>), T(<<49,57,54,57,45,48,50,45,50,57,32,49,50,58,48,48,58,48,48>>),
   T(<<50,48,50,48,45,48,50,45,50,57,32,48,48,58,48,48,58,48,48>>), T(<<49,115>>), T(<<49,104,51,48,109>>), T(<<45,50,109,115>>), T(<<51>>), T(<<49,120>>), T(<<43,53,117,115>>),
   D10(0), D10(25569 * 1024), D10(45000 * 1024 + 768), D10(45000 * 1024 + 1), D10(60 * 1024), D10(36526 * 1024 + 1023),
   Bin(<<>>), Bin(<<1, 160, 255>>), Ext(4, <<1, 2>>), Const("null"), Const("true"), Const("false"), Const("nan"), Const("inf"),
   Obj(<<>>), Arr(<<>>), Arr(<<I(1), T(<<120, 34>>)>>), Obj(<<M(<<120, 92>>, Const("null"))>>)}
Vals == SetToSeq(Scalars)
Types == <<"int", "float", "double", "bool", "string", "datetime", "gotime", "duration">>
Fams == <<"direct", "name", "index", "path">>
Init == v \in 1..Len(Vals) /\ ty \in 1..8 /\ fam \in 1..4 /\ ~(ty \in {6, 7, 8} /\ fam = 3) /\ on = FALSE
Next == ~on /\ on' = TRUE /\ UNCHANGED <<v, ty, fam>>
Spec == Init /\ [][Next]_vars
D == Vals[v]
T1 == Types[ty]
Rule(d) == ReadRule(T1, d, I64Of(7))
(* the readings agree with one another *)
Laws ==
  /\ (D.t \in {"int"} /\ T1 = "int" => Rule(D).v = D.i)
  /\ (T1 = "int" /\ D.t \in {"dbl", "flt", "dt"} /\ Rule(D).def => LET r == I64ToF64(Rule(D).v) IN
        AsDouble(D) = r \/ Rule(D).v = I64Zero \/ ~(F64ToI64(r) = [ok |-> FALSE]))
  /\ (T1 = "bool" /\ D.t = "int" => Rule(D).v = (~I64Neg(D.i) /\ D.i # I64Zero))
  /\ (T1 = "double" /\ D.t = "str" => LET i == ReadInt(D) IN (i.v # I64Zero /\ Rule(D).def /\ I64IsSmall(i.v)) => Rule(D).v = I64ToF64(i.v))
  /\ (T1 = "datetime" /\ D.t = "str" /\ Rule(D).def /\ Rule(D).v # NoDate =>
        LET p == DtParts(Rule(D).v) IN p.ok => DtText(p) = [D.s EXCEPT ![5] = 45, ![8] = 45, ![11] = 32] \/ Len(D.s) = 20)
n == v * 37 + ty * 5 + fam
JsonSafe(d) == AllNodes(d, LAMBDA x : x.t \in {"obj", "arr", "str", "int", "null", "true", "false"})
Via == IF JsonSafe(D) /\ (n + Salt) % 2 = 0 THEN "lazy" ELSE "build"
K == <<97, 34>>
O == Obj(<<M(<<48>>, I(5)), M(K, D)>>)
L == Arr(<<I(5), D>>)
Pth == Obj(<<M(<<112>>, Arr(<<Obj(<<M(K, D)>>)>>))>>)
Script ==
  CASE fam = 1 -> <<SBuild(0, O, Via, n % 3 = 0), SRead(0, <<SK(K)>>, "direct", T1, <<>>, 0, <<>>), SRead(0, <<SN(1)>>, "direct", T1, <<>>, 0, <<>>), SDumps>>
    [] fam = 2 -> <<SBuild(0, O, Via, n % 3 = 0), SBuild(1, L, Via, FALSE), SRead(0, <<>>, "name", T1, K, 0, <<>>), SRead(0, <<>>, "name", T1, <<122>>, 0, <<>>),
                    SRead(1, <<>>, "name", T1, <<49>>, 0, <<>>), SRead(1, <<>>, "name", T1, <<57>>, 0, <<>>), SDumps>>
    [] fam = 3 -> <<SBuild(0, O, Via, n % 3 = 0), SBuild(1, L, Via, FALSE), SRead(0, <<>>, "index", T1, <<>>, 1, <<>>), SRead(1, <<>>, "index", T1, <<>>, 1, <<>>),
                    SRead(1, <<>>, "index", T1, <<>>, 2, <<>>), SRead(0, <<>>, "index", T1, <<>>, -1, <<>>), SDumps>>
    [] OTHER -> <<SBuild(0, Pth, Via, n % 3 = 0), SRead(0, <<>>, "path", T1, <<>>, 0, <<<<112>>, <<48>>, K>>), SRead(0, <<>>, "path", T1, <<>>, 0, <<<<112>>, <<49>>, K>>),
                  SRead(0, <<>>, "path", T1, <<>>, 0, <<<<112>>, <<48>>, K, <<113>>>>), SDumps>>
Check == on => Laws /\ (Picked(n) => Emit(Script, FALSE))
=============================================================================
