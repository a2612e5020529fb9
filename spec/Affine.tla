------------------------------- MODULE Affine -------------------------------
(***************************************************************************)
(* Affine maps as 4x4 matrices (16 entries, row major) acting on           *)
(* homogeneous points, and the calls that build them.                      *)
(* An argument that may be a number or a short vector is [nd, x]: nd = 0   *)
(* for a number (x = <<it>>), 1 for a vector.  axis is <<>> or <<value>>.  *)
(***************************************************************************)
EXTENDS Trig

Identity4 == <<1,0,0,0, 0,1,0,0, 0,0,1,0, 0,0,0,1>>
MatMul4(M, N) ==
    TLCEval([x1 \in 1..16 |->
        LET i == (x1-1) \div 4  j == (x1-1) % 4
        IN  RSum([k \in 1..4 |-> RMul(M[4*i + k], N[4*(k-1) + j + 1])])])
From3(M) ==                         \* 3x3 (9 entries) to 4x4
    <<M[1],M[2],M[3],0, M[4],M[5],M[6],0, M[7],M[8],M[9],0, 0,0,0,1>>
CompIdx(ax) == IF ax >= 0 THEN ax + 1 ELSE ax + 4     \* numpy index into 3 components
AxisArgOK(ax) == ax \in -3..2

TranslateOK(d, axis) ==
    IF Len(axis) = 0 THEN d.nd = 0 \/ Len(d.x) <= 3
    ELSE AxisArgOK(axis[1]) /\ d.nd = 0
TranslateMat(d, axis) ==
    LET t == IF d.nd = 1 /\ Len(axis) = 0 THEN [i \in 1..3 |-> IF i <= Len(d.x) THEN d.x[i] ELSE 0]
             ELSE [i \in 1..3 |-> IF i = (IF Len(axis) = 0 THEN 1 ELSE CompIdx(axis[1])) THEN d.x[1] ELSE 0]
    IN  <<1,0,0,t[1], 0,1,0,t[2], 0,0,1,t[3], 0,0,0,1>>
ScaleOK(d, axis) == TranslateOK(d, axis)
ScaleMat(d, axis) ==
    LET s == IF d.nd = 1 /\ Len(axis) = 0 THEN [i \in 1..3 |-> IF i <= Len(d.x) THEN d.x[i] ELSE 1]
             ELSE IF Len(axis) = 0 THEN [i \in 1..3 |-> d.x[1]]
             ELSE [i \in 1..3 |-> IF i = CompIdx(axis[1]) THEN d.x[1] ELSE 1]
    IN  <<s[1],0,0,0, 0,s[2],0,0, 0,0,s[3],0, 0,0,0,1>>

(* axis: [nd |-> 0, x |-> <<int>>] or [nd |-> 1, x |-> vector]              *)
RotateOK(angle, ax) ==
    \/ REq(angle, 0)
    \/ ax.nd = 0 /\ AxisArgOK(ax.x[1])
    \/ ax.nd = 1 /\ Len(ax.x) \in 1..3 /\ \E i \in 1..Len(ax.x) : ~REq(ax.x[i], 0)
RotUnit(ax) ==
    IF ax.nd = 0 THEN [i \in 1..3 |-> IF i = CompIdx(ax.x[1]) THEN 1 ELSE 0]
    ELSE LET a == [i \in 1..3 |-> IF i <= Len(ax.x) THEN ax.x[i] ELSE 0]
             n == TLCEval(Sqrt(RSum([i \in 1..3 |-> RMul(a[i], a[i])])))
         IN  TLCEval([i \in 1..3 |-> RDiv(a[i], n)])
(* rotation by (c, s) = (cos, sin) about the unit vector u, right handed   *)
RotMat(c, s, u) ==
    LET o(i, j) == RMul(RMul(RSub(1, c), u[i]), u[j])
        x(k) == RMul(s, u[k])
    IN  <<RAdd(c, o(1,1)),      RSub(o(1,2), x(3)),  RAdd(o(1,3), x(2)), 0,
          RAdd(o(2,1), x(3)),   RAdd(c, o(2,2)),     RSub(o(2,3), x(1)), 0,
          RSub(o(3,1), x(2)),   RAdd(o(3,2), x(1)),  RAdd(c, o(3,3)),    0,
          0, 0, 0, 1>>
RotateMat(angle, ax) ==
    IF REq(angle, 0) THEN Identity4
    ELSE LET cs == TLCEval(CosSin(angle)) IN TLCEval(RotMat(cs[1], cs[2], RotUnit(ax)))
AsMat(M) == IF Len(M) = 9 THEN From3(M) ELSE M
Minor4(M, r, c) ==                  \* 3x3 minor without row r, column c
    LET rows == SelectSeq(<<1,2,3,4>>, LAMBDA i : i # r)
        cols == SelectSeq(<<1,2,3,4>>, LAMBDA j : j # c)
        e(i, j) == M[4*(rows[i]-1) + cols[j]]
        m2(i, j, k, l) == RSub(RMul(e(i,k), e(j,l)), RMul(e(i,l), e(j,k)))
    IN  RAdd(RSub(RMul(e(1,1), m2(2,3,2,3)), RMul(e(1,2), m2(2,3,1,3))),
             RMul(e(1,3), m2(2,3,1,2)))
Det4(M) == RSum([j \in 1..4 |->
    RMul(IF j % 2 = 1 THEN M[j] ELSE RNeg(M[j]), Minor4(M, 1, j))])
(* far enough from singular that an inverse can be demanded                *)
Invertible(M) ==
    LET m == TLCEval(RMaxAbs(M))
    IN  RLt(RMul("1/100000", RMul(RMul(m, m), RMul(m, m))), RAbs(Det4(M)))
=============================================================================
