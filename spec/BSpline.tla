------------------------------ MODULE BSpline ------------------------------
(***************************************************************************)
(* Univariate B-spline spaces over exact rationals.                        *)
(*                                                                         *)
(* A space is a degree p and a knot vector U = <<U_0, ..., U_m>>; it has   *)
(* n+1 = m-p basis functions and the parametric domain [U_p, U_{n+1}].     *)
(* Indices below are the 0-based indices of the literature and the code.   *)
(*                                                                         *)
(* Every modelling operation (insert, refine, clamp, unclamp, elevate,     *)
(* slice, extract, remove) is specified by ONE notion: "the function stays *)
(* the same, it is only written in another space", made executable by the  *)
(* blossom (polar form) of each polynomial piece.  MC_Spline.tla checks    *)
(* that notion against the Cox-de Boor recursion, which is independent of  *)
(* it.                                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Rat, TLC
LOCAL INSTANCE FiniteSetsExt
LOCAL INSTANCE SequencesExt

Kn(U, i) == U[i+1]
NumCP(p, U) == Len(U) - p - 1
LastCP(p, U) == Len(U) - p - 2
Lo(p, U) == Kn(U, p)
Hi(p, U) == Kn(U, LastCP(p, U) + 1)
SetToSeqR(S) == SetToSeq(S)         \* some enumeration of a finite set
Seq2Set(s) == {s[i] : i \in 1..Len(s)}

Sorted(U) == \A i \in 1..(Len(U)-1) : RLe(U[i], U[i+1])
CountEq(U, u) == Cardinality({i \in 1..Len(U) : REq(U[i], u)})
(* Multiplicity of every knot strictly inside the domain is at most p.     *)
InteriorMult(p, U) ==
    \A i \in 1..Len(U) :
        (RLt(Lo(p, U), U[i]) /\ RLt(U[i], Hi(p, U))) => CountEq(U, U[i]) <= p
(* At the ends of the domain it is at most p+1.  (The span next to an end  *)
(* may be empty: inserting at an end that is not clamped does that.)       *)
ValidSpace(p, U) ==
    /\ p >= 1 /\ Len(U) >= 2*p + 2
    /\ Sorted(U)
    /\ RLt(Lo(p, U), Hi(p, U))
    /\ InteriorMult(p, U)
    /\ CountEq(U, Lo(p, U)) <= (IF REq(U[1], Lo(p, U)) THEN p+1 ELSE p)
    /\ CountEq(U, Hi(p, U)) <= (IF REq(U[Len(U)], Hi(p, U)) THEN p+1 ELSE p)
InDomain(p, U, u) == RLe(Lo(p, U), u) /\ RLe(u, Hi(p, U))

(* Multiplicity as the operations count it: knots equal to u, at most p.   *)
Mult(p, U, u) == LET c == CountEq(U, u) IN IF c < p THEN c ELSE p

(* The nonempty span holding u, right-continuous, the last one closed; a   *)
(* parameter outside the domain belongs to the first / last span.          *)
NonEmptySpans(p, U) == {k \in p..LastCP(p, U) : RLt(Kn(U, k), Kn(U, k+1))}
FirstSpan(p, U) == Min(NonEmptySpans(p, U))
LastSpan(p, U)  == Max(NonEmptySpans(p, U))
Span(p, U, u) ==
    LET S == {k \in NonEmptySpans(p, U) : RLe(Kn(U, k), u)}
    IN  IF S = {} THEN FirstSpan(p, U) ELSE Max(S)

----------------------------------------------------------------------------
(* Blossom of the polynomial piece on span k.  An argument is <<1, x>> for *)
(* the point x or <<0, x>> for the direction x.  Row(...) lists the        *)
(* coefficients of control points k-p .. k.                                *)
Pt(x)  == <<1, x>>
Dir(x) == <<0, x>>

RowStep(p, U, k, r, w, a) ==
    LET ratioHi(i) ==   \* weight of d_{i} in level r
            RDiv(IF a[1] = 1 THEN RSub(a[2], Kn(U, i)) ELSE a[2],
                 RSub(Kn(U, i+p-r+1), Kn(U, i)))
        ratioLo(i) ==   \* weight of d_{i-1} in level r
            RDiv(IF a[1] = 1 THEN RSub(Kn(U, i+p-r+1), a[2]) ELSE RNeg(a[2]),
                 RSub(Kn(U, i+p-r+1), Kn(U, i)))
    IN  [j \in 1..(p-r+2) |->
            LET i == k - p + r - 2 + j
                lo == IF j <= p-r+1 THEN RMul(ratioLo(i+1), w[j]) ELSE 0
                hi == IF j >= 2 THEN RMul(ratioHi(i), w[j-1]) ELSE 0
            IN  RAdd(lo, hi)]
RECURSIVE RowRec(_, _, _, _, _, _)
RowRec(p, U, k, args, r, w) ==
    IF r = 0 THEN w
    ELSE RowRec(p, U, k, args, r-1, TLCEval(RowStep(p, U, k, r, w, args[r])))
Row(p, U, k, args) == RowRec(p, U, k, args, p, <<1>>)

Fact[n \in Nat] == IF n <= 1 THEN 1 ELSE n * Fact[n-1]
RECURSIVE Choose(_, _)
Choose(n, k) == IF k < 0 \/ k > n THEN 0
                ELSE IF k = 0 \/ k = n THEN 1
                ELSE (Choose(n-1, k-1) * n) \div k

(* d-th derivative at u as a row over control points k-p..k.               *)
DerRowAt(p, U, k, u, d) ==
    IF d > p THEN [j \in 1..(p+1) |-> 0]
    ELSE LET w == Row(p, U, k, [r \in 1..p |-> IF r <= p-d THEN Pt(u) ELSE Dir(1)])
             f == Fact[p] \div Fact[p-d]
         IN  IF d = 0 THEN w ELSE TLCEval([j \in 1..(p+1) |-> RMul(f, w[j])])
DerRow(p, U, u, d) == DerRowAt(p, U, Span(p, U, u), u, d)
EvalRow(p, U, u) == DerRow(p, U, u, 0)

(* A sparse matrix row: coefficients c of control points off, off+1, ...   *)
SRow(off, c) == [off |-> off, c |-> c]
EvalSRow(p, U, u) == LET k == Span(p, U, u) IN SRow(k-p, DerRowAt(p, U, k, u, 0))
DerSRow(p, U, u, d) == LET k == Span(p, U, u) IN SRow(k-p, DerRowAt(p, U, k, u, d))

----------------------------------------------------------------------------
(* The same piecewise polynomial written in the space (q, V), q >= p.      *)
(* Control point j of (q, V) is the blossom (degree raised to q by         *)
(* averaging over the p-subsets of its q arguments) at V_{j+1}..V_{j+q},   *)
(* of any piece in whose span of V the j-th basis function is alive.       *)
PickSpan(q, V, j) ==
    LET S == NonEmptySpans(q, V)
        alive == {l \in S : j <= l /\ l <= j + q}
    IN  IF alive # {} THEN Min(alive)
        ELSE IF j < Min(S) THEN Min(S) ELSE Max(S)
AvgRow(p, U, k, q, args) ==
    IF q = p THEN Row(p, U, k, [r \in 1..p |-> Pt(args[r])])
    ELSE LET subs == kSubset(p, 1..q)
             one(S) == LET ss == SetToSortSeq(S, <)
                       IN  Row(p, U, k, [r \in 1..p |-> Pt(args[ss[r]])])
             rows == TLCEval([S \in subs |-> one(S)])
             acc(j) == FoldSet(LAMBDA S, a : RAdd(rows[S][j], a), 0, subs)
         IN  TLCEval([j \in 1..(p+1) |-> RDiv(acc(j), Cardinality(subs))])
ChangeSRowOn(p, U, q, V, j, l) ==
    LET k == Span(p, U, Kn(V, l))
    IN  SRow(k-p, AvgRow(p, U, k, q, [r \in 1..q |-> Kn(V, j+r)]))
ChangeRows(p, U, q, V) ==
    TLCEval([j1 \in 1..NumCP(q, V) |->
        ChangeSRowOn(p, U, q, V, j1-1, PickSpan(q, V, j1-1))])

----------------------------------------------------------------------------
(* Independent definition of the basis: the Cox-de Boor recursion.         *)
RECURSIVE CoxDeBoor(_, _, _, _, _)
CoxDeBoor(p, U, k, i, u) ==         \* N_{i,p}(u) with u taken in span k
    IF p = 0 THEN (IF i = k THEN 1 ELSE 0)
    ELSE LET t(num, den, v) == IF REq(den, 0) THEN 0 ELSE RMul(RDiv(num, den), v)
         IN  RAdd(t(RSub(u, Kn(U, i)), RSub(Kn(U, i+p), Kn(U, i)),
                    CoxDeBoor(p-1, U, k, i, u)),
                  t(RSub(Kn(U, i+p+1), u), RSub(Kn(U, i+p+1), Kn(U, i+1)),
                    CoxDeBoor(p-1, U, k, i+1, u)))

----------------------------------------------------------------------------
(* Knot vector surgery: what each operation must do to the knot vector.    *)
RECURSIVE InsertSorted(_, _)
InsertSorted(U, u) ==               \* after every knot <= u
    LET k == Cardinality({i \in 1..Len(U) : RLe(U[i], u)})
    IN  SubSeq(U, 1, k) \o <<u>> \o SubSeq(U, k+1, Len(U))
RECURSIVE InsertAll(_, _)
InsertAll(U, us) == IF Len(us) = 0 THEN U ELSE InsertAll(InsertSorted(U, us[1]), Tail(us))
Rep(x, n) == [i \in 1..n |-> x]
RECURSIVE RemoveTimes(_, _, _)
RemoveTimes(U, u, t) ==
    IF t = 0 THEN U
    ELSE LET i == CHOOSE i \in 1..Len(U) : REq(U[i], u)
         IN  RemoveTimes(SubSeq(U, 1, i-1) \o SubSeq(U, i+1, Len(U)), u, t-1)

(* Distinct knots of a sorted vector, in order.                            *)
RECURSIVE UniqueSeq(_)
UniqueSeq(U) ==
    IF Len(U) <= 1 THEN U
    ELSE LET r == UniqueSeq(SubSeq(U, 1, Len(U)-1))
         IN  IF REq(r[Len(r)], U[Len(U)]) THEN r ELSE r \o <<U[Len(U)]>>
DomainKnots(p, U) == SubSeq(U, p+1, Len(U)-p)
Breaks(p, U) == UniqueSeq(DomainKnots(p, U))

(* Clamping at an end next to which spans are empty also drops the control *)
(* points the domain does not reach.                                       *)
DeadLeft(p, U)  == Cardinality({i \in (p+2)..Len(U) : REq(U[i], Lo(p, U))})
DeadRight(p, U) == Cardinality({i \in 1..(Len(U)-p-1) : REq(U[i], Hi(p, U))})
TrimLeft(p, U)  == SubSeq(U, DeadLeft(p, U)+1, Len(U))
TrimRight(p, U) == SubSeq(U, 1, Len(U)-DeadRight(p, U))
ClampLeft(p, V) ==
    LET U == TrimLeft(p, V) IN [i \in 1..Len(U) |-> IF i <= p THEN Lo(p, U) ELSE U[i]]
ClampRight(p, V) ==
    LET U == TrimRight(p, V) IN [i \in 1..Len(U) |-> IF i > Len(U)-p THEN Hi(p, U) ELSE U[i]]
ClampSides(p, U, l, r) ==
    LET V == IF l THEN ClampLeft(p, U) ELSE U
    IN  IF r THEN ClampRight(p, V) ELSE V
LeftClamped(p, U)  == \A i \in 1..(p+1) : REq(U[i], Lo(p, U))
RightClamped(p, U) == \A i \in (Len(U)-p)..Len(U) : REq(U[i], Hi(p, U))

(* Unclamping to continuity C: the C+1 outermost-but-domain knots on the   *)
(* chosen side are continued periodically (period = length of the domain), *)
(* the rest keep the value of the domain end.                              *)
RECURSIVE UnclampL(_, _, _, _)
UnclampL(p, U, C, i) ==
    IF i > C THEN U
    ELSE LET n == LastCP(p, U)
             x == RAdd(RSub(Kn(U, p), Kn(U, n+1)), Kn(U, n-i))
         IN  UnclampL(p, TLCEval([U EXCEPT ![C-i+1] = x]), C, i+1)
RECURSIVE UnclampR(_, _, _, _)
UnclampR(p, U, C, i) ==
    IF i > C THEN U
    ELSE LET n == LastCP(p, U)
             m == n + p + 1
             x == RAdd(RSub(Kn(U, n+1), Kn(U, p)), Kn(U, p+i+1))
         IN  UnclampR(p, TLCEval([U EXCEPT ![m-C+i+1] = x]), C, i+1)
UnclampSides(p, U, C, l, r) ==
    LET W == ClampSides(p, U, l, r)
        V == IF l THEN UnclampL(p, W, C, 0) ELSE W
    IN  IF r THEN UnclampR(p, V, C, 0) ELSE V

ElevateKnots(p, U, t) ==            \* U clamped: every distinct knot gains t
    LET us == UniqueSeq(U)
        RECURSIVE go(_)
        go(i) == IF i > Len(us) THEN <<>>
                 ELSE Rep(us[i], CountEq(U, us[i]) + t) \o go(i+1)
    IN  go(1)

ReverseKnots(p, U) ==
    LET m == Len(U) IN [i \in 1..m |-> RSub(RAdd(Lo(p, U), Hi(p, U)), U[m+1-i])]
RemapKnots(p, U, c, d) ==
    LET a == Lo(p, U)  b == Hi(p, U)
        s == RDiv(RSub(d, c), RSub(b, a))
    IN  [i \in 1..Len(U) |-> RAdd(c, RMul(s, RSub(U[i], a)))]
SliceKnots(p, U, a, b) ==
    Rep(a, p+1) \o SelectSeq(U, LAMBDA x : RLt(a, x) /\ RLt(x, b)) \o Rep(b, p+1)
GrevilleSeq(p, U) ==
    [i \in 1..NumCP(p, U) |-> RDiv(RSum(SubSeq(U, i+1, i+p)), p)]
=============================================================================
