-------------------------------- MODULE Cad --------------------------------
(***************************************************************************)
(* The modelling functions of igakit.cad.                                  *)
(*                                                                         *)
(* Each call takes objects (a.objs, names in the heap) and makes objects   *)
(* (out).  A verdict compares what was made with what the specification    *)
(* makes of the observed inputs.  Constructions whose parametrization is   *)
(* free (arcs) are specified by what they are: sampled at enough           *)
(* parameters to determine them.                                           *)
(***************************************************************************)
EXTENDS Kernels, Affine, Removal, Construct

CadOps == {"c_line", "c_circle", "c_linear", "c_grid", "c_compat", "c_extrude", "c_revolve",
           "c_ruled", "c_sweep", "c_coons", "c_join", "c_refine"}

CObj(heap, c, i) == heap[c.a.objs[i]]
LastOf(s) == s[Len(s)]
LoOf(o, a) == Lo(o.p[a], o.U[a])
HiOf(o, a) == Hi(o.p[a], o.U[a])
MaxOf(n, f(_)) == LET RECURSIVE go(_)
                      go(i) == IF i = 1 THEN f(1) ELSE RMax(f(i), go(i-1))
                  IN  go(n)
MinOf(n, f(_)) == LET RECURSIVE go(_)
                      go(i) == IF i = 1 THEN f(1) ELSE RMin(f(i), go(i-1))
                  IN  go(n)
IMaxOf(n, f(_)) == LET RECURSIVE go(_)
                       go(i) == IF i = 1 THEN f(1) ELSE LET m == go(i-1) IN IF f(i) > m THEN f(i) ELSE m
                   IN  go(n)
(* the geometry alone: constructions that combine nets drop the fields     *)
Geo(o) == [o EXCEPT !.nc = 4,
             !.A = TLCEval([x1 \in 1..(Prod(o.sh)*4) |-> Comp(o.A, o.nc, (x1-1) \div 4, ((x1-1) % 4) + 1)])]

----------------------------------------------------------------------------
(* An object written in another object's spaces.  Along the given axes its *)
(* parameter range is first mapped affinely onto q's; computed knots that  *)
(* differ from q's by rounding count as q's.                               *)
SnapTol(U) == RMul("1/1000000000000", RMax(KnotScale(U), RSub(U[Len(U)], U[1])))
SnapKnots(p, V, q, W) ==            \* preferring knots that are there often enough
    LET tol == SnapTol(W)
        D == UniqueSeq(W)
        all(x) == {j \in 1..Len(D) : RClose(x, D[j], tol)}
        near(x) == LET N == all(x)
                       M == {j \in N : CountEq(W, D[j]) >= CountEq(V, x) + (q - p)}
                   IN  IF M = {} THEN N ELSE M
        one(x) == LET N == near(x)
                  IN  IF N = {} THEN x
                      ELSE D[CHOOSE j \in N : \A k \in N : RLe(RAbs(RSub(D[j], x)), RAbs(RSub(D[k], x)))]
    IN  TLCEval([i \in 1..Len(V) |->
            IF RLt(Lo(p, V), V[i]) /\ RLt(V[i], Hi(p, V)) THEN one(V[i]) ELSE V[i]])
MappedKnots(o, a, q) ==
    LET V == IF REq(LoOf(o, a), LoOf(q, a)) /\ REq(HiOf(o, a), HiOf(q, a)) THEN o.U[a]
             ELSE TLCEval(RemapKnots(o.p[a], o.U[a], LoOf(q, a), HiOf(q, a)))
    IN  SnapKnots(o.p[a], V, q.p[a], q.U[a])
(* q's space along a holds o's: its degree is not lower and it has every   *)
(* interior knot often enough                                              *)
Holds(o, a, q) ==
    LET V == MappedKnots(o, a, q)
    IN  /\ o.p[a] <= q.p[a]
        /\ \A i \in 1..Len(V) : (RLt(LoOf(q, a), V[i]) /\ RLt(V[i], HiOf(q, a)))
                => CountEq(q.U[a], V[i]) >= CountEq(V, V[i]) + (q.p[a] - o.p[a])
(* no interior knot of q more often than one of the objects os needs       *)
Needed(os, a, q) ==
    LET near(o, x) == LET V == MappedKnots(o, a, q)  t == SnapTol(q.U[a])
                          k == Cardinality({i \in 1..Len(V) : RClose(V[i], x, t)})
                      IN  IF k = 0 THEN 0 ELSE k + (q.p[a] - o.p[a])
    IN  \A i \in 1..Len(q.U[a]) :
            LET x == q.U[a][i]
            IN  (RLt(LoOf(q, a), x) /\ RLt(x, HiOf(q, a)))
                  => CountEq(q.U[a], x) <= IMaxOf(Len(os), LAMBDA j : near(os[j], x))
RECURSIVE RewriteRec(_, _, _, _)
RewriteRec(o, q, axs, acc) ==
    IF Len(axs) = 0 THEN acc
    ELSE LET a == axs[1]
             m == [acc EXCEPT !.U = Put(acc.U, a, MappedKnots(o, a, q))]
         IN  RewriteRec(o, q, Tail(axs), TLCEval(InSpace(m, a, q.p[a], q.U[a])))
Rewritten(o, q, axs) == RewriteRec(o, q, axs, o)

NetClose(obs, exp, tol) == RMismatch(obs, exp, RMul(tol, RMax(RMaxAbs(exp), 0))) = 0
AxesSeq(o) == [a \in Axes(o) |-> a]
(* q is o, the same points in the same order, in spaces that hold o's      *)
RewriteVerdict(o, q, axs, tol) ==
    IF \E i \in 1..Len(axs) : ~Holds(o, axs[i], q) THEN "space-does-not-hold-the-input"
    ELSE LET e == Rewritten(o, q, axs)
         IN  IF e.sh # q.sh THEN "shape"
             ELSE IF e.nc # q.nc THEN "components"
             ELSE IF ~NetClose(q.A, e.A, tol) THEN "control-net" ELSE ""

----------------------------------------------------------------------------
(* compat                                                                  *)
CompatAxes(o, c) ==                 \* 1-based, 0 for an axis that does not exist
    IF Len(c.a.axes) = 0 THEN AxesSeq(o) ELSE [i \in 1..Len(c.a.axes[1]) |-> AxisOf(o, c.a.axes[1][i])]
(* qs are os made compatible along the axes axs                            *)
CompatRelation(os, qs, axs, tol) ==
    LET n == Len(os)
        S == Seq2Set(axs)
        onAxis(a) ==
            LET p == IMaxOf(n, LAMBDA i : os[i].p[a])
                lo == MinOf(n, LAMBDA i : LoOf(os[i], a))
                hi == MaxOf(n, LAMBDA i : HiOf(os[i], a))
                U == qs[1].U[a]
            IN  IF \E i \in 1..n : qs[i].p[a] # p THEN "degree"
                ELSE IF \E i \in 1..n : qs[i].U[a] # U THEN "knots-differ"
                ELSE IF ~LeftClamped(p, U) \/ ~RightClamped(p, U) THEN "not-clamped"
                ELSE IF ~REq(Lo(p, U), lo) \/ ~REq(Hi(p, U), hi) THEN "range"
                ELSE IF ~Needed(os, a, qs[1]) THEN "needless-knots" ELSE ""
        offAxis(a) ==
            IF a \in S THEN ""
            ELSE FirstBad(n, LAMBDA i : IF qs[i].p[a] # os[i].p[a] THEN "degree"
                                        ELSE KnotVerdict(os[i].p[a], qs[i].U[a], os[i].U[a], FALSE))
        f == FirstBad(n, LAMBDA i : IF Dim(qs[i]) # Dim(os[i]) THEN "dimension" ELSE FormVerdict(qs[i]))
    IN  IF f # "" THEN f
        ELSE LET g == FirstBad(Len(axs), LAMBDA j : onAxis(axs[j]))
                 h == FirstBad(Dim(os[1]), offAxis)
             IN  IF g # "" THEN g ELSE IF h # "" THEN h
                 ELSE FirstBad(n, LAMBDA i : RewriteVerdict(os[i], qs[i], axs, tol))
UniqAxes(axs) == SelectSeq([i \in 1..Len(axs) |-> IF \E j \in 1..(i-1) : axs[j] = axs[i] THEN 0 ELSE axs[i]],
                           LAMBDA a : a # 0)
CompatVerdict(heap, ev) ==
    LET n == Len(ev.a.objs)
        os == [i \in 1..n |-> CObj(heap, ev, i)]
        qs == [i \in 1..n |-> ev.heap[ev.out[i]]]
    IN  IF Len(ev.out) # n THEN "result-count"
        ELSE IF n = 1 THEN ObjVerdict(qs[1], os[1], FALSE, 0)
        ELSE CompatRelation(os, qs, UniqAxes(CompatAxes(os[1], ev)), NetTol)

----------------------------------------------------------------------------
(* Arcs.  angle: <<start, end>>, each <<>> (default) or <<value>>.         *)
TwoPiD == "6.283185307179586"
ArcStart(g) == IF Len(g) = 0 \/ Len(g[1]) = 0 THEN 0 ELSE g[1][1]
ArcEnd(g) == IF Len(g) = 0 \/ Len(g[2]) = 0 THEN TwoPiD ELSE g[2][1]
ArcSweep(g) == RSub(ArcEnd(g), ArcStart(g))
(* a sweep there is something to say about: nonzero, at most a turn        *)
ArcDefined(g) ==
    /\ RLt("1/100000000", RAbs(ArcSweep(g)))
    /\ RLe(RAbs(ArcSweep(g)), RAdd(RMul(2, Pi), "1/1000000000000"))
(* four samples a span and the end                                         *)
ArcSamples(p, U) ==
    LET b == Breaks(p, U)  n == Len(b) - 1
    IN  TLCEval([i1 \in 1..(4*n + 1) |->
            LET e == (i1-1) \div 4 + 1  k == (i1-1) % 4
            IN  IF e > n THEN b[n+1] ELSE RAdd(b[e], RMul(RSub(b[e+1], b[e]), RDiv(k, 4)))])
(* cs: the sampled unit vectors, from start to end the right way round     *)
ArcVerdict(cs, g, tol) ==
    LET n == Len(cs)
        ini == TLCEval(CosSin(ArcStart(g)))
        fin == TLCEval(CosSin(ArcEnd(g)))
        sg == IF RLt(0, ArcSweep(g)) THEN 1 ELSE -1
        cross(u, v) == RMul(sg, RSub(RMul(u[1], v[2]), RMul(u[2], v[1])))
        at(u, v) == RClose(u[1], v[1], tol) /\ RClose(u[2], v[2], tol)
    IN  IF \E k \in 1..n : ~RClose(RAdd(RMul(cs[k][1], cs[k][1]), RMul(cs[k][2], cs[k][2])), 1, tol)
        THEN "not-at-the-radius"
        ELSE IF ~at(cs[1], ini) THEN "starts-elsewhere"
        ELSE IF ~at(cs[n], fin) THEN "ends-elsewhere"
        ELSE IF \E k \in 1..(n-1) : ~RLt(0, cross(cs[k], cs[k+1])) THEN "wrong-direction"
        ELSE IF \E k \in 1..(n-1) :     \* comes past its start again, before its end
                    /\ RLt(cross(ini, cs[k]), RNeg(tol))
                    /\ IF k+1 < n THEN ~RLt(cross(ini, cs[k+1]), RNeg(tol))
                       ELSE RLt(tol, cross(ini, cs[k+1]))
             THEN "too-many-turns" ELSE ""

CircleVerdict(q, a) ==
    LET o3 == TLCEval(IF Len(a.center) = 0 THEN <<0, 0, 0>>
                      ELSE LET T == TranslateMat(a.center[1], <<>>) IN <<T[4], T[8], T[12]>>)
        us == ArcSamples(q.p[1], q.U[1])
        H == Grid(q, <<us>>, <<0>>).A
        rel(k, i) == RSub(H[4*k + i], RMul(o3[i], H[4*k + 4]))
        rw(k) == RMul(a.radius, H[4*k + 4])
        cs == TLCEval([k1 \in 1..Len(us) |-> LET k == k1 - 1
                                             IN <<RDiv(rel(k, 1), rw(k)), RDiv(rel(k, 2), rw(k))>>])
        tol == RMul("1/1000000000000", RAdd(1, RDiv(RMaxAbs(o3), a.radius)))
    IN  IF q.nc # 4 THEN "components"
        ELSE IF ~REq(LoOf(q, 1), 0) \/ ~REq(HiOf(q, 1), 1) THEN "range"
        ELSE IF \E k \in 0..(Len(us)-1) : ~RLt(0, H[4*k + 4]) THEN "weight-not-positive"
        ELSE IF \E k \in 0..(Len(us)-1) : ~RClose(RDiv(rel(k, 3), rw(k)), 0, tol) THEN "not-in-its-plane"
        ELSE ArcVerdict(cs, a.angle, tol)

----------------------------------------------------------------------------
(* Multilinear shapes: corner points, weight one unless homogeneous.       *)
MultiStructure(d, pts) == Len(pts.sh) = d + 1 /\ \A i \in 1..d : pts.sh[i] = 2
MultiArgs(d, pts) ==
    [knots |-> [i \in 1..d |-> <<0, 0, 1, 1>>], control |-> <<pts>>, weights |-> <<>>, fields |-> <<>>]
UnitBox(d) ==                       \* corners at -1/2 and 1/2
    LET k == IF d = 3 THEN 3 ELSE 2
    IN  [sh |-> [i \in 1..(d+1) |-> IF i <= d THEN 2 ELSE k],
         A |-> TLCEval([x1 \in 1..(Prod(Rep(2, d))*k) |->
                LET i == (x1-1) \div k  c == ((x1-1) % k) + 1
                IN  IF c > d THEN 0
                    ELSE IF (i \div Prod(Rep(2, d-c))) % 2 = 0 THEN "-1/2" ELSE "1/2"])]
LinearPts(a) == IF Len(a.points) = 0 THEN UnitBox(a.dim) ELSE a.points[1]
Fill3(x) == [i \in 1..3 |-> IF i <= Len(x) THEN x[i] ELSE 0]

----------------------------------------------------------------------------
(* grid.  Arguments may be numbers or sequences: [nd |-> 0 or 1, x |-> .]  *)
PerAx(v, d) == IF v.nd = 0 THEN Rep(v.x[1], d) ELSE v.x
GridDim(a) == IF a.shape.nd = 0 THEN 1 ELSE Len(a.shape.x)
GridDeg(a) == PerAx(a.degree, GridDim(a))
GridCont(a) ==
    LET p == GridDeg(a)
    IN  [i \in 1..GridDim(a) |->
            IF Len(a.continuity) = 0 THEN p[i] - 1
            ELSE LET C == PerAx(a.continuity[1], GridDim(a))[i] IN IF C < 0 THEN C + p[i] ELSE C]
GridLim(a) == IF a.limits.nd = 1 THEN [i \in 1..GridDim(a) |-> a.limits.x] ELSE a.limits.x
GridOK(a) ==
    LET d == GridDim(a)
    IN  /\ d \in 1..3
        /\ \A i \in 1..d : PerAx(a.shape, d)[i] >= 1
        /\ Len(GridDeg(a)) = d /\ \A i \in 1..d : GridDeg(a)[i] >= 1
        /\ Len(a.continuity) = 0 \/ Len(PerAx(a.continuity[1], d)) = d
        /\ \A i \in 1..d : GridCont(a)[i] \in 0..(GridDeg(a)[i] - 1)
        /\ Len(GridLim(a)) = d /\ \A i \in 1..d : Len(GridLim(a)[i]) = 2
        /\ Len(PerAx(a.wrap, d)) = d
GridMeaning(a) == \A i \in 1..GridDim(a) : RLt(GridLim(a)[i][1], GridLim(a)[i][2])
GridVerdict(q, a) ==
    LET d == GridDim(a)
        p == GridDeg(a)
        U == TLCEval([i \in 1..d |-> GridKnots(PerAx(a.shape, d)[i], p[i], GridCont(a)[i],
                            GridLim(a)[i][1], GridLim(a)[i][2], PerAx(a.wrap, d)[i])])
        sh == [i \in 1..d |-> NumCP(p[i], U[i])]
        g == TLCEval([i \in 1..d |-> GrevilleSeq(p[i], U[i])])
        e == [p |-> p, U |-> U, sh |-> sh, nc |-> 4,      \* the identity map of the box
              A |-> TLCEval([x1 \in 1..(Prod(sh)*4) |->
                LET i == (x1-1) \div 4  c == ((x1-1) % 4) + 1
                IN  IF c = 4 THEN 1 ELSE IF c > d THEN 0
                    ELSE g[c][((i \div Strides(sh)[c]) % sh[c]) + 1]])]
    IN  ObjVerdict(q, e, TRUE, 0)

----------------------------------------------------------------------------
(* A net with one more axis of extent n at the end; comp(i, k, c) gives    *)
(* homogeneous component c of point (i, k), all but c 0-based              *)
Stack(o, n, comp(_, _, _)) ==
    TLCEval([x1 \in 1..(Prod(o.sh)*n*4) |->
        LET x == x1 - 1 IN comp(x \div (4*n), (x \div 4) % n, (x % 4) + 1)])
HComp(o, i, c) == Comp(o.A, o.nc, i, c)
Extruded(o, T) ==
    LET t == Geo(Transform(o, T))
    IN  [p |-> o.p \o <<1>>, U |-> o.U \o <<<<0,0,1,1>>>>, sh |-> o.sh \o <<2>>, nc |-> 4,
         A |-> Stack(o, 2, LAMBDA i, k, c : IF k = 0 THEN HComp(o, i, c) ELSE HComp(t, i, c))]
Swept(s, t) ==                      \* point (i, k) is S_i + T_k, its weight the product
    [p |-> s.p \o t.p, U |-> s.U \o t.U, sh |-> s.sh \o t.sh, nc |-> 4,
     A |-> Stack(s, t.sh[1], LAMBDA i, k, c :
        IF c = 4 THEN RMul(HComp(s, i, 4), HComp(t, k, 4))
        ELSE RAdd(RMul(HComp(s, i, c), HComp(t, k, 4)), RMul(HComp(t, k, c), HComp(s, i, 4))))]
(* slice k (0-based) of the last axis, of extent n                         *)
Layer(q, k) ==
    LET d == Dim(q)  n == q.sh[d]
        sh == SubSeq(q.sh, 1, d-1)
    IN  [p |-> SubSeq(q.p, 1, d-1), U |-> SubSeq(q.U, 1, d-1), sh |-> sh, nc |-> q.nc,
         A |-> TLCEval([x1 \in 1..(Prod(sh)*q.nc) |->
                LET i == (x1-1) \div q.nc  c == (x1-1) % q.nc IN q.A[(i*n + k)*q.nc + c + 1]])]
RuledVerdict(o1, o2, q) ==
    LET f == FormVerdict(q)  d == Dim(o1) + 1
    IN  IF Dim(q) # d THEN "dimension"
        ELSE IF f # "" THEN f
        ELSE IF q.p[d] # 1 \/ KnotVerdict(1, q.U[d], <<0,0,1,1>>, FALSE) # "" THEN "not-straight"
        ELSE CompatRelation(<<Geo(o1), Geo(o2)>>, <<Layer(q, 0), Layer(q, 1)>>,
                            [i \in 1..(d-1) |-> i], NetTol)

----------------------------------------------------------------------------
(* Coons: four curves; C00, C01 run along v at u = 0, 1, C10, C11 along u  *)
(* at v = 0, 1.  In homogeneous coordinates the surface is                 *)
(* (1-u) C00(v) + u C01(v) + (1-v) C10(u) + v C11(u) - bilinear(corners).  *)
AtNorm(o, t) ==                     \* homogeneous point at normalized parameter t
    LET u == IF REq(t, 1) THEN HiOf(o, 1) ELSE RAdd(LoOf(o, 1), RMul(t, RSub(HiOf(o, 1), LoOf(o, 1))))
    IN  Grid(o, <<<<u>>>>, <<0>>).A
CornerGap(os) ==                    \* relative mismatch of the corners
    LET e(i, t) == TLCEval(AtNorm(os[i], t))
        c == TLCEval([i \in 1..4 |-> [t \in 1..2 |-> e(i, t-1)]])
        gap(x, y) == RMaxAbs([k \in 1..4 |-> RSub(x[k], y[k])])
        m == MaxOf(4, LAMBDA i : RMax(RMaxAbs(c[i][1]), RMaxAbs(c[i][2])))
        g == RMax(RMax(gap(c[1][1], c[3][1]), gap(c[1][2], c[4][1])),
                  RMax(gap(c[2][1], c[3][2]), gap(c[2][2], c[4][2])))
    IN  RDiv(g, m)
CoonsVerdict(os, q) ==
    LET f == FormVerdict(q)
        rng(i, j, a) == /\ REq(LoOf(q, a), RMin(0, RMin(LoOf(os[i], 1), LoOf(os[j], 1))))
                        /\ REq(HiOf(q, a), RMax(1, RMax(HiOf(os[i], 1), HiOf(os[j], 1))))
        smp == [a \in 1..2 |-> LET s == SpanSamples(q.p[a], q.U[a])
                               IN <<LoOf(q, a)>> \o s \o <<HiOf(q, a)>>]
        nrm(a) == TLCEval([i \in 1..Len(smp[a]) |->
                    RDiv(RSub(smp[a][i], LoOf(q, a)), RSub(HiOf(q, a), LoOf(q, a)))])
        us == nrm(1)  vs == nrm(2)
        X == TLCEval([i \in 1..4 |-> LET t == IF i <= 2 THEN vs ELSE us
                                     IN [k \in 1..Len(t) |-> AtNorm(os[i], t[k])]])
        K == TLCEval([i \in 1..2 |-> [j \in 1..2 |-> AtNorm(os[2+j], i-1)]])
        exp(i, j, c) ==
            LET u == us[i]  v == vs[j]
            IN  RSub(RAdd(RAdd(RMul(RSub(1, u), X[1][j][c]), RMul(u, X[2][j][c])),
                          RAdd(RMul(RSub(1, v), X[3][i][c]), RMul(v, X[4][i][c]))),
                     RAdd(RMul(RSub(1, u), RAdd(RMul(RSub(1, v), K[1][1][c]), RMul(v, K[1][2][c]))),
                          RMul(u, RAdd(RMul(RSub(1, v), K[2][1][c]), RMul(v, K[2][2][c])))))
        G == Grid(q, smp, <<0, 0>>).A
        nv == Len(vs)
        E == TLCEval([x1 \in 1..Len(G) |->
                exp(((x1-1) \div (4*nv)) + 1, (((x1-1) \div 4) % nv) + 1, ((x1-1) % 4) + 1)])
    IN  IF Dim(q) # 2 THEN "dimension"
        ELSE IF f # "" THEN f
        ELSE IF q.nc # 4 THEN "components"
        ELSE IF ~rng(3, 4, 1) \/ ~rng(1, 2, 2) THEN "range"
        ELSE IF ~NetClose(G, E, NetTol) THEN "surface" ELSE ""

----------------------------------------------------------------------------
(* Revolution about the line through point along axis.                     *)
AboutPoint(M, a) ==                 \* rotation matrix M about the point a
    MatMul4(TranslateMat([nd |-> 1, x |-> a], <<>>),
            MatMul4(M, TranslateMat([nd |-> 1, x |-> [i \in 1..3 |-> RNeg(a[i])]], <<>>)))
Dot3(u, v) == RAdd(RMul(u[1], v[1]), RAdd(RMul(u[2], v[2]), RMul(u[3], v[3])))
Cross3(u, v) == <<RSub(RMul(u[2], v[3]), RMul(u[3], v[2])), RSub(RMul(u[3], v[1]), RMul(u[1], v[3])),
                  RSub(RMul(u[1], v[2]), RMul(u[2], v[1]))>>
RevolveOK(o, a) ==
    /\ Dim(o) <= 2 /\ Len(a.point.x) <= 3
    /\ IF a.axis.nd = 0 THEN AxisArgOK(a.axis.x[1])
       ELSE Len(a.axis.x) \in 1..3 /\ \E i \in 1..Len(a.axis.x) : ~REq(a.axis.x[i], 0)
RevolveVerdict(o, q, a) ==
    LET f == FormVerdict(q)
        d == Dim(o) + 1
        v == TLCEval(RotUnit(a.axis))
        T == TranslateMat(a.point, <<>>)
        pt == <<T[4], T[8], T[12]>>
        n == Prod(o.sh)
        us == ArcSamples(q.p[d], q.U[d])
        nk == Len(us)
        rows == TLCEval([k \in 1..nk |-> EvalSRow(q.p[d], q.U[d], us[k])])
        G == TLCEval(MapAxis(q.A, q.sh, 4, d, rows))     \* net of the input at each angle
        h(i, k, c) == G[(i*nk + k - 1)*4 + c]
        w(i) == HComp(o, i, 4)
        rel(i) == TLCEval([c \in 1..3 |-> RSub(RDiv(HComp(o, i, c), w(i)), pt[c])])
        rad(i) == LET r == rel(i)  z == Dot3(r, v)
                  IN  TLCEval([c \in 1..3 |-> RSub(r[c], RMul(z, v[c]))])
        r2s == TLCEval([i1 \in 1..n |-> LET r == rad(i1-1) IN Dot3(r, r)])
        far == CHOOSE i \in 0..(n-1) : \A j \in 0..(n-1) : RLe(r2s[j+1], r2s[i+1])
        R == rad(far)
        size == RMax(MaxOf(n, LAMBDA i1 : RMaxAbs(rel(i1-1))), RMaxAbs(pt))
        flat == ~RLt(RMul("1/1000000000000", RMul(size, size)), r2s[far+1])   \* all on the axis
        lam == TLCEval([k \in 1..nk |-> RDiv(h(far, k, 4), w(far))])
        Rk(k) == LET x == TLCEval([c \in 1..3 |-> RSub(RDiv(h(far, k, c), h(far, k, 4)), pt[c])])
                     z == Dot3(x, v)
                 IN  TLCEval([c \in 1..3 |-> RSub(x[c], RMul(z, v[c]))])
        cs == TLCEval([k \in 1..nk |-> LET y == Rk(k)
                 IN <<RDiv(Dot3(R, y), r2s[far+1]), RDiv(Dot3(v, Cross3(R, y)), r2s[far+1])>>])
        wm == RMaxAbs(Weights(o))
        tol == RMul("1/10000000000", RMul(wm, RAdd(1, size)))
        ctol == RMul("1/10000000000", RAdd(1, RDiv(size, Sqrt(r2s[far+1]))))
        M(k) == AboutPoint(RotMat(cs[k][1], cs[k][2], v), pt)
        at(k) == LET m == IF flat THEN Identity4 ELSE TLCEval(M(k))
                 IN  FirstBad(n, LAMBDA i1 :
                        LET P == [c \in 1..4 |-> HComp(o, i1-1, c)]
                            e == TLCEval([c \in 1..4 |-> RMul(lam[k], MatVec4(m, P)[c])])
                        IN  IF \E c \in 1..4 : ~RClose(h(i1-1, k, c), e[c], tol)
                            THEN "not-turned-rigidly" ELSE "")
    IN  IF Dim(q) # d THEN "dimension"
        ELSE IF f # "" THEN f
        ELSE IF q.nc # 4 THEN "components"
        ELSE IF SubSeq(q.p, 1, d-1) # o.p THEN "degree"
        ELSE IF \E i \in 1..(d-1) : KnotVerdict(o.p[i], q.U[i], o.U[i], FALSE) # "" THEN "knots"
        ELSE IF ~REq(LoOf(q, d), 0) \/ ~REq(HiOf(q, d), 1) THEN "range"
        ELSE IF \E k \in 1..nk : ~RLt(0, lam[k]) THEN "weights"
        ELSE IF \E k \in 1..nk : (k-1) % 4 = 0 /\ ~RClose(lam[k], 1, "1/10000000000") THEN "weights-at-breaks"
        ELSE LET r == IF flat THEN "" ELSE ArcVerdict(cs, a.angle, ctol)
             IN  IF r # "" THEN r ELSE FirstBad(nk, at)

----------------------------------------------------------------------------
(* join                                                                    *)
OtherAxes(d, a) == SelectSeq([i \in 1..d |-> i], LAMBDA i : i # a)
(* the two faces, written in the spaces q has on the other axes            *)
JoinFace(o, a, u, q) ==
    LET face == Extract(o, a, u)
        space == [p |-> DropAt(q.p, a), U |-> DropAt(q.U, a), sh |-> DropAt(q.sh, a)]
    IN  Rewritten(face, space, AxesSeq(face))
JoinVerdict(o1, o2, a, q) ==
    LET f == FormVerdict(q)
        d == Dim(o1)
        u == HiOf(o1, a)
        hi == RAdd(u, RSub(HiOf(o2, a), LoOf(o2, a)))
        p == IF o1.p[a] < o2.p[a] THEN o2.p[a] ELSE o1.p[a]
        oth == OtherAxes(d, a)
        q1 == TLCEval(Slice(q, a, LoOf(q, a), u))
        q2 == TLCEval(Slice(q, a, u, HiOf(q, a)))
        tol == "1/10000000"
        m == RMax(1, RMax(RMaxAbs(o1.A), RMaxAbs(o2.A)))
        part(o, r) ==
            IF ~Holds(o, a, r) THEN "loses-knots"
            ELSE IF ~Needed(<<o>>, a, r) THEN "needless-knots"
            ELSE LET e == Rewritten(o, r, AxesSeq(o))
                 IN  IF e.sh # r.sh \/ e.nc # r.nc THEN "shape"
                     ELSE IF RMismatch(r.A, e.A, RMul(tol, m)) # 0 THEN "not-this-object" ELSE ""
        onOther(b) ==
            IF q.p[b] # (IF o1.p[b] < o2.p[b] THEN o2.p[b] ELSE o1.p[b]) THEN "degree"
            ELSE IF ~LeftClamped(q.p[b], q.U[b]) \/ ~RightClamped(q.p[b], q.U[b]) THEN "not-clamped"
            ELSE IF ~REq(LoOf(q, b), RMin(LoOf(o1, b), LoOf(o2, b)))
                 \/ ~REq(HiOf(q, b), RMax(HiOf(o1, b), HiOf(o2, b))) THEN "range"
            ELSE IF ~Holds(o1, b, q) \/ ~Holds(o2, b, q) THEN "loses-knots"
            ELSE IF ~Needed(<<o1, o2>>, b, q) THEN "needless-knots" ELSE ""
    IN  IF Dim(q) # d THEN "dimension"
        ELSE IF f # "" THEN f
        ELSE IF q.nc # o1.nc THEN "components"
        ELSE LET g == FirstBad(Len(oth), LAMBDA j : onOther(oth[j]))
             IN  IF g # "" THEN g
        ELSE IF q.p[a] # p THEN "degree"
        ELSE IF ~REq(LoOf(q, a), LoOf(o1, a)) \/ ~RClose(HiOf(q, a), hi, RMul(KnotTol, RMax(1, RMax(RAbs(hi), RMax(KnotScale(o2.U[a]), KnotScale(o1.U[a]))))))
             THEN "range"
        ELSE IF CountEq(q.U[a], u) \notin 1..p THEN "joint"
        ELSE LET F1 == JoinFace(o1, a, u, q)  F2 == JoinFace(o2, a, LoOf(o2, a), q)
             IN  IF RMismatch(F1.A, F2.A, RMul("1/1000000000000", m)) # 0 THEN ""    \* they do not meet
        ELSE LET r1 == part(o1, q1)
             IN  IF r1 # "" THEN "first-part:" \o r1
                 ELSE LET r2 == part(o2, q2) IN IF r2 # "" THEN "second-part:" \o r2 ELSE ""

----------------------------------------------------------------------------
(* cad.refine: degrees raised, every span split, continuity set at breaks. *)
(* degree and continuity: <<>> or <<[nd, x]>> with x of optional numbers;  *)
(* factor: <<>> or <<[nd, x]>>, x of <<>> or [nd |-> 0/1, x |-> counts].   *)
RefPer(v, d) == IF Len(v) = 0 THEN [i \in 1..d |-> <<>>]
                ELSE IF v[1].nd = 0 THEN [i \in 1..d |-> v[1].x[1]] ELSE v[1].x
RefSizes(o, a) ==
    LET ok(v) == Len(v) = 0 \/ v[1].nd = 0 \/ Len(v[1].x) = Dim(o)
    IN  ok(a.degree) /\ ok(a.continuity) /\ ok(a.factor)
RefDeg(o, a) ==
    LET g == RefPer(a.degree, Dim(o))
    IN  [i \in Axes(o) |-> IF Len(g[i]) = 0 \/ g[i][1] < o.p[i] THEN o.p[i] ELSE g[i][1]]
RefCont(o, a) ==
    LET g == RefPer(a.continuity, Dim(o))  p == RefDeg(o, a)
    IN  [i \in Axes(o) |-> IF Len(g[i]) = 0 THEN p[i] - 1
                           ELSE IF g[i][1] < 0 THEN p[i] + g[i][1] ELSE g[i][1]]
RefCounts(o, a) ==                  \* per axis, per span
    LET g == RefPer(a.factor, Dim(o))
    IN  [i \in Axes(o) |-> LET n == Len(Breaks(o.p[i], o.U[i])) - 1
            IN  IF Len(g[i]) = 0 THEN Rep(1, n)
                ELSE IF g[i][1].nd = 0 THEN Rep(g[i][1].x[1], n) ELSE g[i][1].x]
RefineCadOK(o, a) ==
    /\ RefSizes(o, a)
    /\ LET g == RefPer(a.degree, Dim(o)) IN \A i \in Axes(o) : Len(g[i]) = 0 \/ g[i][1] > 0
    /\ \A i \in Axes(o) : RefCont(o, a)[i] \in 0..(RefDeg(o, a)[i] - 1)
    /\ \A i \in Axes(o) : LET N == RefCounts(o, a)[i]
                          IN  /\ Len(N) = Len(Breaks(o.p[i], o.U[i])) - 1
                              /\ \A j \in 1..Len(N) : N[j] > 0
(* the knots along one axis                                                *)
RefKnots(p, U, P, C, N) ==
    LET b == Breaks(p, U)
        n == Len(b) - 1
        old(i) == LET s == CountEq(U, b[i]) + (P - p) IN IF s < P - C THEN P - C ELSE s
        RECURSIVE inside(_, _), go(_)
        inside(i, j) == IF j >= N[i] THEN <<>>
            ELSE Rep(RAdd(b[i], RMul(RDiv(j, N[i]), RSub(b[i+1], b[i]))), P - C) \o inside(i, j+1)
        go(i) == IF i > n THEN <<>>
                 ELSE (IF i = 1 THEN <<>> ELSE Rep(b[i], old(i))) \o inside(i, 1) \o go(i+1)
    IN  Rep(b[1], P+1) \o go(1) \o Rep(b[n+1], P+1)
RefineCadVerdict(o, q, a) ==
    LET f == FormVerdict(q)
        P == RefDeg(o, a)  C == RefCont(o, a)  N == RefCounts(o, a)
        k(i) == KnotVerdict(P[i], q.U[i], TLCEval(RefKnots(o.p[i], o.U[i], P[i], C[i], N[i])), TRUE)
    IN  IF Dim(q) # Dim(o) THEN "dimension"
        ELSE IF q.p # P THEN "degree"
        ELSE LET g == FirstBad(Dim(o), k)
             IN  IF g # "" THEN g ELSE IF f # "" THEN f
                 ELSE RewriteVerdict(o, q, AxesSeq(o), NetTol)

----------------------------------------------------------------------------
(* Knots of two objects, each mapped to [0,1], that differ by rounding     *)
(* only: mapped to one range they may come together or not, and be refused.     *)
UnitKnots(o, a) == RemapKnots(o.p[a], o.U[a], 0, 1)
KnotsClash(o, a, q, b) ==
    LET V == UniqueSeq(UnitKnots(o, a))  W == UniqueSeq(UnitKnots(q, b))
    IN  \E i \in 1..Len(V), j \in 1..Len(W) :
            /\ RLt(0, V[i]) /\ RLt(V[i], 1)
            /\ RClose(V[i], W[j], "1/1000000000000")
            /\ ~REq(V[i], W[j]) \/ ~REq(LoOf(o, a), LoOf(q, b)) \/ ~REq(HiOf(o, a), HiOf(q, b))
            (* together they are more than a knot may be repeated *)
            /\ CountEq(UnitKnots(o, a), V[i]) + CountEq(UnitKnots(q, b), W[j])
                 > IF o.p[a] < q.p[b] THEN o.p[a] ELSE q.p[b]
Clashing(heap, c) ==
    LET o(i) == CObj(heap, c, i)
    IN  \E i, j \in 1..Len(c.a.objs) : \E a \in Axes(o(i)) :
            a <= Dim(o(j)) /\ KnotsClash(o(i), a, o(j), a)
CadStatus(heap, c) ==
    LET fl(b) == IF b THEN "must" ELSE "mustnot"
        o(i) == CObj(heap, c, i)
        n == Len(c.a.objs)
        any0 == \E i \in 1..n : Dim(o(i)) = 0
        meet(s) == IF s # "must" THEN s ELSE IF Clashing(heap, c) THEN "any" ELSE "must"
    IN  IF any0 THEN "any"
        ELSE CASE c.op = "c_line" ->
                IF Len(c.a.p0.x) <= 3 /\ Len(c.a.p1.x) <= 3 THEN "must" ELSE "mustnot"
          [] c.op = "c_circle" ->
                IF Len(c.a.center) = 1 /\ ~TranslateOK(c.a.center[1], <<>>) THEN "mustnot"
                ELSE IF RLt(0, c.a.radius) /\ ArcDefined(c.a.angle) THEN "must" ELSE "any"
          [] c.op = "c_linear" ->
                IF Len(c.a.points) = 0 THEN "must"
                ELSE IF ~MultiStructure(c.a.dim, c.a.points[1]) THEN "mustnot"
                ELSE ConStatus(MultiArgs(c.a.dim, c.a.points[1]))
          [] c.op = "c_grid" -> IF ~GridOK(c.a) THEN "mustnot" ELSE IF GridMeaning(c.a) THEN "must" ELSE "any"
          [] c.op = "c_compat" ->
                IF n < 2 THEN "must"
                ELSE meet(fl(/\ \A i \in 1..n : Dim(o(i)) = Dim(o(1))
                             /\ \A i \in 1..Len(CompatAxes(o(1), c)) : CompatAxes(o(1), c)[i] # 0))
          [] c.op = "c_extrude" -> fl(Dim(o(1)) <= 2 /\ TranslateOK(c.a.d, c.a.axis))
          [] c.op = "c_revolve" ->
                IF ~RevolveOK(o(1), c.a) THEN "mustnot"
                ELSE IF ArcDefined(c.a.angle) THEN "must" ELSE "any"
          [] c.op = "c_ruled" -> meet(fl(Dim(o(1)) = Dim(o(2)) /\ Dim(o(1)) <= 2))
          [] c.op = "c_sweep" -> fl(Dim(o(1)) <= 2 /\ Dim(o(2)) = 1)
          [] c.op = "c_coons" ->
                IF \E i \in 1..4 : Dim(o(i)) # 1 THEN "mustnot"
                ELSE LET g == CornerGap([i \in 1..4 |-> o(i)])
                     IN  IF RLe(g, "1/10000000000000") THEN meet("must")
                         ELSE IF RLt("1/1000000000", g) THEN "mustnot" ELSE "any"
          [] c.op = "c_join" ->
                IF Dim(o(1)) # Dim(o(2)) \/ c.a.axis \notin 0..(Dim(o(1)) - 1) THEN "mustnot"
                ELSE IF o(1).nc # o(2).nc THEN "any" ELSE meet("must")
          [] c.op = "c_refine" -> fl(RefineCadOK(o(1), c.a))

CadVerdict(heap, ev) ==
    LET o(i) == CObj(heap, ev, i)
        q == ev.heap[ev.out[1]]
    IN  CASE ev.op = "c_line" ->
                ObjVerdict(q, ConResult(MultiArgs(1, [sh |-> <<2, 3>>,
                                A |-> Fill3(ev.a.p0.x) \o Fill3(ev.a.p1.x)])), FALSE, 0)
          [] ev.op = "c_circle" ->
                LET f == FormVerdict(q)
                IN  IF ~RLt(0, ev.a.radius) \/ ~ArcDefined(ev.a.angle) THEN ""
                    ELSE IF Dim(q) # 1 THEN "dimension" ELSE IF f # "" THEN f ELSE CircleVerdict(q, ev.a)
          [] ev.op = "c_linear" -> ObjVerdict(q, ConResult(MultiArgs(ev.a.dim, LinearPts(ev.a))), FALSE, 0)
          [] ev.op = "c_grid" -> IF ~GridMeaning(ev.a) THEN "" ELSE GridVerdict(q, ev.a)
          [] ev.op = "c_compat" -> CompatVerdict(heap, ev)
          [] ev.op = "c_extrude" ->
                ObjVerdict(q, Extruded(o(1), TranslateMat(ev.a.d, ev.a.axis)), FALSE, RMaxAbs(o(1).A))
          [] ev.op = "c_revolve" ->
                IF ArcDefined(ev.a.angle) THEN RevolveVerdict(o(1), q, ev.a) ELSE ""
          [] ev.op = "c_ruled" -> RuledVerdict(o(1), o(2), q)
          [] ev.op = "c_sweep" ->
                ObjVerdict(q, Swept(o(1), o(2)), FALSE, RMul(RMaxAbs(o(1).A), RMaxAbs(o(2).A)))
          [] ev.op = "c_coons" ->
                IF RLe(CornerGap([i \in 1..4 |-> o(i)]), "1/10000000000000")
                THEN CoonsVerdict([i \in 1..4 |-> o(i)], q) ELSE ""
          [] ev.op = "c_join" ->
                IF o(1).nc # o(2).nc THEN "" ELSE JoinVerdict(o(1), o(2), ev.a.axis + 1, q)
          [] ev.op = "c_refine" -> RefineCadVerdict(o(1), q, ev.a)
=============================================================================
