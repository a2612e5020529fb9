------------------------------- MODULE MC_Rat -------------------------------
(***************************************************************************)
(* The ground the other modules stand on: the overridden arithmetic of     *)
(* Rat.tla agrees with RatRef.tla on all small rationals, in all the ways  *)
(* they can be written; literals denote the doubles they should; Trig.tla  *)
(* obeys the identities that define square roots, sines and cosines.       *)
(***************************************************************************)
EXTENDS Trig

CONSTANTS N, D
Ref == INSTANCE RatRef
VARIABLES a, b, c
vars == <<a, b, c>>
view == vars

Sign(n) == IF n < 0 THEN "-" ELSE ""
Digits == <<"0","1","2","3","4","5","6","7","8","9">>
RECURSIVE Str(_)
Str(n) == IF n < 10 THEN Digits[n+1] ELSE Str(n \div 10) \o Digits[(n % 10) + 1]
IntStr(n) == Sign(n) \o Str(Ref!Abs(n))
Tok(q) == IntStr(q[1]) \o "/" \o Str(q[2])      \* not in lowest terms in general
Pairs == {<<n, d>> : n \in -N..N, d \in 1..D}

Init == a \in Pairs /\ b \in Pairs /\ c = <<0, 1>>
Next == /\ c = <<0, 1>> /\ c' \in {<<n, 3>> : n \in {-4, 1, 7}} /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars

Is(r, q) == LET n == Ref!Norm(q) IN /\ RNum(r) = RNum(Tok(n))
                                    /\ RStr(r) = IF n[2] = 1 THEN IntStr(n[1]) ELSE Tok(n)
Ways(q) == IF q[2] = 1 THEN {Tok(q), IntStr(q[1])} ELSE {Tok(q)}
Agrees ==
    \A x \in Ways(a) : \A y \in Ways(b) :
        /\ Is(x, a)
        /\ Is(RAdd(x, y), Ref!Add(a, b)) /\ Is(RSub(x, y), Ref!Sub(a, b))
        /\ Is(RMul(x, y), Ref!Mul(a, b))
        /\ IF b[1] = 0 THEN ~RFinite(RDiv(x, y)) ELSE Is(RDiv(x, y), Ref!Div(a, b))
        /\ RLt(x, y) = Ref!Lt(a, b) /\ REq(x, y) = Ref!Eq(a, b)
        /\ RLe(x, y) = (Ref!Lt(a, b) \/ Ref!Eq(a, b))
        /\ Is(RNeg(x), <<-a[1], a[2]>>) /\ Is(RAbs(x), <<Ref!Abs(a[1]), a[2]>>)
        /\ Is(RMax(x, y), IF Ref!Lt(a, b) THEN b ELSE a) /\ Is(RMin(x, y), IF Ref!Lt(a, b) THEN a ELSE b)
        /\ Is(RFloor(x), <<Ref!Floor(a), 1>>) /\ RFinite(x)
        /\ RClose(x, y, "1/3") = ~Ref!Lt(<<1, 3>>, LET d == Ref!Sub(a, b) IN <<Ref!Abs(d[1]), d[2]>>)
Integers_ ==                        \* native integers mix with strings
    a[2] = 1 => /\ RAdd(a[1], Tok(b)) = RAdd(Tok(a), Tok(b))
                /\ RNum(a[1]) = RNum(Tok(a)) /\ RLt(a[1], Tok(b)) = RLt(Tok(a), Tok(b))
Folds ==
    LET s == <<a, b, c, b>>  t == <<c, a, <<1, 2>>, b>>
        S == [i \in 1..4 |-> Tok(s[i])]  T == [i \in 1..4 |-> Tok(t[i])]
        W == [i \in 1..9 |-> IF i % 2 = 0 THEN T[i \div 2] ELSE "5"]
        q == [i \in 1..2 |-> Ref!Mul(s[i], t[2*i])]
    IN  /\ Is(RSum(S), Ref!Sum(s)) /\ Is(RDot(S, T), Ref!Dot(s, t))
        /\ RGather(S, W, 2, 2) = RDot(S, T)
        /\ Is(RMaxAbs(S), LET m(x, y) == IF Ref!Lt(x, <<Ref!Abs(y[1]), y[2]>>) THEN <<Ref!Abs(y[1]), y[2]>> ELSE x
                          IN  Ref!Fold(m, <<0, 1>>, s, 4))
        /\ RSum(<<>>) = RNum(0) /\ RMaxAbs(<<>>) = RNum(0)
        /\ RMismatch(S, S, 0) = 0 /\ RMismatch(S, SubSeq(S, 1, 3), 0) = -1
        /\ RMismatch(S, T, 0) = (IF \A i \in 1..4 : Ref!Eq(s[i], t[i]) THEN 0
                                 ELSE CHOOSE i \in 1..4 : ~Ref!Eq(s[i], t[i]) /\ \A j \in 1..(i-1) : Ref!Eq(s[j], t[j]))
        /\ RAllFinite(S) /\ ~RAllFinite(<<Tok(a), "nan">>) /\ ~RAllFinite(<<"inf">>) /\ ~RAllFinite(<<"-inf", 1>>)

(* Literals denote doubles: multiples of 2^-52 and the like, nearest to    *)
(* the decimal.                                                            *)
Literals ==
    /\ RNum("0.5") = RNum("1/2") /\ RNum("-2.25") = RNum("-9/4") /\ RNum("1e3") = RNum(1000) /\ RNum("1e-05") # RNum("1/100000")
    /\ RNum("0.1") = RNum("3602879701896397/36028797018963968")
    /\ RNum("1.0000000000000002") = RNum("4503599627370497/4503599627370496")
    /\ RNum("0.30000000000000004") # RNum("0.3")
    /\ ~RLt("nan", 0) /\ ~RLt(0, "nan") /\ ~RFinite("nan") /\ ~RFinite("inf")

(* Square roots, sines and cosines.                                        *)
Eps == "1/10000000000000000000000000"
Close(x, y) == RClose(x, y, Eps)
Roots == a[1] > 0 => LET s == Sqrt(Tok(a)) IN RLt(0, s) /\ Close(RDiv(RMul(s, s), Tok(a)), 1)
Circle ==
    LET p == CosSin(Tok(a))  q == CosSin(Tok(b))  s == CosSin(RAdd(Tok(a), Tok(b)))
        m == CosSin(RNeg(Tok(a)))
        d == CosSin(RMul(Tok(a), "1/1000"))
    IN  /\ Close(RAdd(RMul(p[1], p[1]), RMul(p[2], p[2])), 1)
        /\ Close(s[1], RSub(RMul(p[1], q[1]), RMul(p[2], q[2])))
        /\ Close(s[2], RAdd(RMul(p[1], q[2]), RMul(p[2], q[1])))
        /\ Close(m[1], p[1]) /\ Close(m[2], RNeg(p[2]))
        \* sin(y) is y - y^3/6 up to y^5/120: tells the angle's unit
        /\ LET y == RMul(Tok(a), "1/1000")
               y3 == RMul(y, RMul(y, y))
           IN  RClose(d[2], RSub(y, RDiv(y3, 6)), RAdd(RAbs(RMul(y3, RMul(y, y))), Eps))
HalfTurn == LET h == CosSin(Pi) IN Close(h[1], -1) /\ Close(h[2], 0) /\ RLt(3, Pi) /\ RLt(Pi, 4)
=============================================================================
