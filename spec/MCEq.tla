-------------------------------- MODULE MCEq --------------------------------
(***************************************************************************)
(* Equality of every pair of documents from a universe of values and small  *)
(* containers, however the two came to be (set by a program, with or without *)
(* a cache, decoded from JSON and still unread, decoded from MsgPack).      *)
(***************************************************************************)
EXTENDS Script

VARIABLES a, b, on
vars == <<a, b, on>>
I(n) == IntD(I64Of(n))
M(k, v) == [k |-> k, v |-> v]
Scalars == {I(0), I(1), I(-1), IntD(<<0, 32, 0, 0, 0, 0, 0, 1>>), IntD(<<127, 255, 255, 255, 255, 255, 255, 255>>),
            Dbl(DZero), Dbl(DNegZero), Dbl(DOne), Dbl(ScaledF64(1, 1)), Dbl(<<67, 64, 0, 0, 0, 0, 0, 0>>), Dbl(<<67, 224, 0, 0, 0, 0, 0, 0>>), Dbl(DNaN), Dbl(DInf(TRUE)),
            Flt(<<63, 128, 0, 0>>), Flt(<<63, 0, 0, 0>>), Flt(Zeros(4)), Flt(<<62, 76, 204, 205>>),
            Str(<<>>), Str(<<49>>), Str(<<97>>), Str(<<65>>), Str(<<97, 34>>), Str(<<97, 92, 34>>), Str(<<195, 169>>),
            Bin(<<>>), Bin(<<97>>), Bin(<<97, 98>>), Ext(0, <<97>>), Ext(1, <<97>>), Ext(1, <<98>>),
            Dt(DOne), Dt(ScaledF64(1, 1)), Const("null"), Const("true"), Const("false"), Const("nan"), Const("inf")}
K1 == <<97>>
K2 == <<98>>
Conts == {Obj(<<>>), Arr(<<>>), Arr(<<I(1)>>), Arr(<<Dbl(DOne)>>), Arr(<<I(1), I(2)>>), Arr(<<I(2), I(1)>>), Arr(<<Arr(<<>>)>>), Arr(<<Obj(<<>>)>>),
          Obj(<<M(K1, I(1))>>), Obj(<<M(K1, Dbl(DOne))>>), Obj(<<M(K2, I(1))>>), Obj(<<M(<<65>>, I(1))>>), Obj(<<M(<<97, 34>>, I(1))>>),
          Obj(<<M(K1, I(1)), M(K2, I(2))>>), Obj(<<M(K2, I(2)), M(K1, I(1))>>), Obj(<<M(K1, Str(<<97, 10>>))>>), Obj(<<M(K1, Obj(<<M(K1, Const("null"))>>))>>)}
U == SetToSeq(Scalars \cup Conts)
Init == a \in 1..Len(U) /\ b \in 1..Len(U) /\ Keep(a * 7, b) /\ on = FALSE
Next == ~on /\ on' = TRUE /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars
X == U[a]
Y == U[b]
Laws == /\ (a = b => EqDoc(X, Y))
        /\ EqDoc(X, Y) = EqDoc(Y, X)
        /\ (X.t \in {"obj", "arr", "str", "bin"} /\ X.t # Y.t => ~EqDoc(X, Y))
        /\ EqDoc(Arr(<<I(5), X>>), Arr(<<I(5), Y>>)) = EqDoc(X, Y)
        /\ EqDoc(Obj(<<M(K1, X)>>), Obj(<<M(K1, Y)>>)) = EqDoc(X, Y)
n == a * 131 + b * 7
Vias == <<"build", "lazy", "json", "msgpack", "build">>
(* a scalar is compared as member of a wrapper, which every way of making it can express *)
JsonSafe(d) == AllNodes(d, LAMBDA x : x.t \in {"obj", "arr", "str", "int", "null", "true", "false"})
MpSafe(d) == AllNodes(d, LAMBDA x : x.t \in {"obj", "arr", "str", "int", "flt", "dbl", "bin", "ext", "null", "true", "false"})
How(d, i) == LET v == Vias[((i + Salt) % 5) + 1]
             IN IF v \in {"lazy", "json"} THEN (IF JsonSafe(d) THEN v ELSE "build") ELSE IF v = "msgpack" THEN (IF MpSafe(d) THEN v ELSE "build") ELSE v
W(d, i) == IF IsCont(d) /\ i % 2 = 0 THEN [d |-> d, p |-> <<>>]
           ELSE IF i % 3 = 0 THEN [d |-> Arr(<<I(1), d>>), p |-> <<SN(1)>>] ELSE [d |-> Obj(<<M(K2, d)>>), p |-> <<SK(K2)>>]
WX == W(X, n)
WY == W(Y, n \div 2)
Script == <<SBuild(0, WX.d, How(X, n), n % 3 = 0), SBuild(1, WY.d, How(Y, n \div 3), n % 4 = 0),
            SEq(0, WX.p, 1, WY.p), SEq(1, WY.p, 0, WX.p), SEq(0, WX.p, 0, WX.p), SEq(0, <<>>, 1, <<>>), SDumps>>
Check == on => Laws /\ (Picked(n) => Emit(Script, FALSE))
=============================================================================
