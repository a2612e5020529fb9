------------------------------- MODULE Nurbs -------------------------------
(***************************************************************************)
(* NURBS objects as pure values.                                           *)
(*                                                                         *)
(*   [p |-> degrees, U |-> knot vectors, sh |-> shape, nc |-> components,  *)
(*    A |-> the homogeneous net, row major, components last]               *)
(*                                                                         *)
(* Components 1..4 are w*x, w*y, w*z, w; the rest are w*field.  Every      *)
(* operation along one axis is a sparse matrix (rows of blossom            *)
(* coefficients) applied to each fibre of the net.                         *)
(***************************************************************************)
EXTENDS BSpline

RECURSIVE Prod(_)
Prod(s) == IF Len(s) = 0 THEN 1 ELSE s[1] * Prod(Tail(s))
Dim(o) == Len(o.p)
Axes(o) == 1..Dim(o)

WellFormed(o) ==
    /\ Len(o.U) = Dim(o) /\ Len(o.sh) = Dim(o) /\ o.nc >= 4
    /\ Len(o.A) = Prod(o.sh) * o.nc
    /\ RAllFinite(o.A)
    /\ \A a \in Axes(o) : /\ RAllFinite(o.U[a])
                          /\ o.sh[a] = NumCP(o.p[a], o.U[a])
                          /\ ValidSpace(o.p[a], o.U[a])
(* everything except that weights are positive *)
PositiveWeights(o) == \A i \in 0..(Prod(o.sh)-1) : RLt(0, o.A[i*o.nc + 4])

(* The spans next to the ends of the domain need not be nonempty: a knot   *)
(* inserted at an end that is not clamped makes an object that still       *)
(* denotes a function, but whose control points next to that end do not    *)
(* matter any more.                                                        *)
Regular(o) ==
    \A a \in Axes(o) : /\ RLt(Kn(o.U[a], o.p[a]), Kn(o.U[a], o.p[a]+1))
                       /\ RLt(Kn(o.U[a], LastCP(o.p[a], o.U[a])), Hi(o.p[a], o.U[a]))
LiveNet(o, A) ==                    \* the numbers of A (shaped like o's net) that matter
    IF Regular(o) THEN A
    ELSE LET d == Dim(o)
             lo == TLCEval([a \in 1..d |-> DeadLeft(o.p[a], o.U[a])])
             hi == TLCEval([a \in 1..d |-> o.sh[a] - 1 - DeadRight(o.p[a], o.U[a])])
             n == [a \in 1..d |-> hi[a] - lo[a] + 1]
             inner(a) == Prod(SubSeq(n, a+1, d))
             RECURSIVE flat(_, _, _)
             flat(i, a, f) == IF a > d THEN f
                              ELSE flat(i, a+1, f*o.sh[a] + lo[a] + ((i \div inner(a)) % n[a]))
         IN  TLCEval([x1 \in 1..(Prod(n)*o.nc) |->
                A[flat((x1-1) \div o.nc, 1, 0)*o.nc + ((x1-1) % o.nc) + 1]])

(* numpy-style axis number -> 1-based axis, 0 if out of range              *)
AxisOf(o, ax) == IF ax >= 0 /\ ax < Dim(o) THEN ax + 1
                 ELSE IF ax < 0 /\ ax >= -Dim(o) THEN ax + Dim(o) + 1
                 ELSE 0
ValidAxis(o, ax) == AxisOf(o, ax) # 0

Put(s, i, x) == [s EXCEPT ![i] = x]
DropAt(s, i) == SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))

(* rows applied to every fibre of a flat array with shape sh (no           *)
(* component axis: nc is an inner extent)                                  *)
MapAxis(A, sh, nc, a, rows) ==
    LET inner == Prod(SubSeq(sh, a+1, Len(sh))) * nc
        outer == Prod(SubSeq(sh, 1, a-1))
        N == sh[a]  M == Len(rows)
    IN  TLCEval([x1 \in 1..(outer*M*inner) |->
            LET x == x1 - 1
                i == x % inner
                j == (x \div inner) % M
                h == x \div (inner*M)
            IN  RGather(rows[j+1].c, A, (h*N + rows[j+1].off)*inner + i + 1, inner)])

InSpace(o, a, q, V) ==              \* the same object, axis a written in (q, V)
    LET rows == ChangeRows(o.p[a], o.U[a], q, V)
    IN  [o EXCEPT !.p = Put(o.p, a, q), !.U = Put(o.U, a, V),
                  !.sh = Put(o.sh, a, Len(rows)),
                  !.A = MapAxis(o.A, o.sh, o.nc, a, rows)]

----------------------------------------------------------------------------
(* Evaluation on a grid.  us[a] is the sequence of parameters on axis a.   *)
RECURSIVE GridRec(_, _, _, _, _)
GridRec(o, us, ders, a, acc) ==
    IF a > Dim(o) THEN acc
    ELSE LET rows == TLCEval([i \in 1..Len(us[a]) |->
                        DerSRow(o.p[a], o.U[a], us[a][i], ders[a])])
         IN  GridRec(o, us, ders, a+1,
                 [sh |-> Put(acc.sh, a, Len(us[a])),
                  A  |-> MapAxis(acc.A, acc.sh, acc.nc, a, rows), nc |-> acc.nc])
Grid(o, us, ders) ==                \* homogeneous partial derivatives on the grid
    GridRec(o, us, ders, 1, [sh |-> o.sh, A |-> o.A, nc |-> o.nc])
NoDer(o) == [a \in Axes(o) |-> 0]

(* Projection: component c of point i divided by its weight.               *)
Comp(A, nc, i, c) == A[i*nc + c]
ProjectFrom(A, nc, lo, hi, w) ==    \* components lo..hi of each point over component w
    LET n == Len(A) \div nc
        k == hi - lo + 1
    IN  TLCEval([x1 \in 1..(n*k) |->
            LET i == (x1-1) \div k  c == lo + ((x1-1) % k)
            IN  RDiv(Comp(A, nc, i, c), Comp(A, nc, i, w))])
Points(o) == ProjectFrom(o.A, o.nc, 1, 3, 4)
Fields(o) == ProjectFrom(o.A, o.nc, 5, o.nc, 4)
Weights(o) == [i1 \in 1..Prod(o.sh) |-> Comp(o.A, o.nc, i1-1, 4)]
MinWeight(o) == LET w == Weights(o)
                    RECURSIVE go(_)
                    go(i) == IF i = 1 THEN w[1] ELSE RMin(w[i], go(i-1))
                IN  go(Len(w))

(* o's geometry with the given unweighted fields attached (F row major,    *)
(* nf components) instead of its own                                       *)
WithFields(o, F, nf) ==
    LET n == Prod(o.sh)  k == 4 + nf
    IN  [o EXCEPT !.nc = k,
         !.A = TLCEval([x1 \in 1..(n*k) |->
                LET i == (x1-1) \div k  c == ((x1-1) % k) + 1
                    w == Comp(o.A, o.nc, i, 4)
                IN  IF c <= 4 THEN Comp(o.A, o.nc, i, c)
                    ELSE RMul(F[i*nf + (c-4)], w)])]

----------------------------------------------------------------------------
(* Single-axis operations.  Each assumes its precondition (see Session).   *)
Insert(o, a, u, t) == InSpace(o, a, o.p[a], InsertAll(o.U[a], Rep(u, t)))
Refine(o, a, us)   == InSpace(o, a, o.p[a], InsertAll(o.U[a], us))
Clamp(o, a, l, r)  == InSpace(o, a, o.p[a], ClampSides(o.p[a], o.U[a], l, r))
Unclamp(o, a, C, l, r) == InSpace(o, a, o.p[a], UnclampSides(o.p[a], o.U[a], C, l, r))
Elevate(o, a, t) ==
    LET p == o.p[a]  U == ClampSides(p, o.U[a], TRUE, TRUE)
    IN  InSpace(o, a, p+t, ElevateKnots(p, U, t))
Slice(o, a, x, y)  == InSpace(o, a, o.p[a], SliceKnots(o.p[a], o.U[a], x, y))
Extract(o, a, u) ==
    LET rows == <<EvalSRow(o.p[a], o.U[a], u)>>
    IN  [o EXCEPT !.p = DropAt(o.p, a), !.U = DropAt(o.U, a), !.sh = DropAt(o.sh, a),
                  !.A = MapAxis(o.A, o.sh, o.nc, a, rows)]

(* Reorderings of the net: sigma maps a 1-based new multi-index to old.    *)
Strides(sh) == [a \in 1..Len(sh) |-> Prod(SubSeq(sh, a+1, Len(sh)))]
Reindex(o, nsh, old(_)) ==          \* old(idx): 0-based new multi-index -> old one
    LET ns == Strides(nsh)  os == Strides(o.sh)  d == Len(nsh)
        n == Prod(nsh)
        idx(i) == [a \in 1..d |-> (i \div ns[a]) % nsh[a]]
        flat(ix) == LET RECURSIVE go(_)
                        go(a) == IF a = 0 THEN 0 ELSE ix[a]*os[a] + go(a-1)
                    IN  go(Len(o.sh))
    IN  TLCEval([x1 \in 1..(n*o.nc) |->
            LET i == (x1-1) \div o.nc  c == (x1-1) % o.nc
            IN  o.A[flat(old(idx(i)))*o.nc + c + 1]])
Transpose(o, perm) ==               \* perm: new axis a is old axis perm[a] (1-based)
    LET d == Dim(o)
        nsh == [a \in 1..d |-> o.sh[perm[a]]]
        inv == [b \in 1..d |-> CHOOSE a \in 1..d : perm[a] = b]
    IN  [o EXCEPT !.p = [a \in 1..d |-> o.p[perm[a]]], !.U = [a \in 1..d |-> o.U[perm[a]]],
                  !.sh = nsh, !.A = Reindex(o, nsh, LAMBDA ix : [b \in 1..d |-> ix[inv[b]]])]
Reverse(o, a) ==
    [o EXCEPT !.U = Put(o.U, a, ReverseKnots(o.p[a], o.U[a])),
              !.A = Reindex(o, o.sh, LAMBDA ix : Put(ix, a, o.sh[a]-1-ix[a]))]
Remap(o, a, c, d) == [o EXCEPT !.U = Put(o.U, a, RemapKnots(o.p[a], o.U[a], c, d))]
EvenReverse(o, axs) ==              \* axes listed twice cancel, as two reversals do
    LET RECURSIVE go(_, _)
        go(q, s) == IF Len(s) = 0 THEN q ELSE go(TLCEval(Reverse(q, s[1])), Tail(s))
    IN  go(o, axs)

(* 4x4 matrix (row major, 16 entries) applied to the homogeneous part      *)
MatVec4(M, v) == [i \in 1..4 |-> RDot(SubSeq(M, 4*i-3, 4*i), v)]
Transform(o, M) ==
    LET n == Prod(o.sh)
        img == TLCEval([i1 \in 1..n |-> MatVec4(M, SubSeq(o.A, (i1-1)*o.nc+1, (i1-1)*o.nc+4))])
    IN  [o EXCEPT !.A = TLCEval([x1 \in 1..(n*o.nc) |->
            LET i == (x1-1) \div o.nc  c == ((x1-1) % o.nc) + 1
            IN  IF c <= 4 THEN img[i+1][c] ELSE o.A[x1]])]
=============================================================================
