------------------------------- MODULE Query -------------------------------
(***************************************************************************)
(* What evaluation and the other read-only calls must return.              *)
(*                                                                         *)
(* Parameters: c.a.u is one entry per parametric axis, <<>> (left out: the *)
(* Greville abscissae are used) or <<[nd |-> 0 or 1, x |-> <<numbers>>]>>. *)
(* Fields: c.a.fields is <<>> (none given) or <<[sh, A]>>, an array shaped *)
(* like the net with or without a trailing component axis.                 *)
(***************************************************************************)
EXTENDS Nurbs

ParamsOK(o, us) ==
    /\ Len(us) = Dim(o)
    /\ \A a \in Axes(o) : Len(us[a]) = 1 =>
          \A i \in 1..Len(us[a][1].x) : InDomain(o.p[a], o.U[a], us[a][1].x[i])
ParamSeqs(o, us) ==
    [a \in Axes(o) |-> IF Len(us[a]) = 0 THEN GrevilleSeq(o.p[a], o.U[a]) ELSE us[a][1].x]
(* shape of a result: scalar parameters drop their axis                    *)
RECURSIVE DropScalars(_, _, _)
DropScalars(us, sh, a) ==
    IF a > Len(us) THEN <<>>
    ELSE (IF Len(us[a]) = 1 /\ us[a][1].nd = 0 THEN <<>> ELSE <<sh[a]>>)
         \o DropScalars(us, sh, a+1)

FieldShapeOK(o, f) == f.sh = o.sh \/ (Len(f.sh) = Dim(o)+1 /\ SubSeq(f.sh, 1, Dim(o)) = o.sh)
FieldScalar(o, f) == f.sh = o.sh
FieldComps(o, f) == IF FieldScalar(o, f) THEN 1 ELSE f.sh[Dim(o)+1]

(* --- obj(u, v, w, fields=...) ------------------------------------------ *)
(* c.a.fields: "no", "own" or "given" with c.a.F                            *)
CallOK(o, c) == ParamsOK(o, c.a.u) /\ (c.a.fields = "given" => FieldShapeOK(o, c.a.F))
CallObj(o, c) ==
    IF c.a.fields = "given" THEN WithFields(o, c.a.F.A, FieldComps(o, c.a.F)) ELSE o
CallPoints(o, c) ==
    LET g == Grid(CallObj(o, c), ParamSeqs(o, c.a.u), NoDer(o))
        s == DropScalars(c.a.u, g.sh, 1)
        pts == [sh |-> s \o <<3>>, A |-> ProjectFrom(g.A, g.nc, 1, 3, 4)]
        flds == [sh |-> s \o <<g.nc-4>>, A |-> ProjectFrom(g.A, g.nc, 5, g.nc, 4)]
    IN  IF c.a.fields = "no" THEN <<pts>> ELSE <<pts, flds>>

(* --- evaluate(fields, u, v, w) ------------------------------------------ *)
EvalFieldsOK(o, c) ==
    ParamsOK(o, c.a.u) /\ (Len(c.a.fields) = 1 => FieldShapeOK(o, c.a.fields[1]))
EvalFields(o, c) ==
    LET giv == Len(c.a.fields) = 1
        q == IF giv THEN WithFields(o, c.a.fields[1].A, FieldComps(o, c.a.fields[1])) ELSE o
        g == Grid(q, ParamSeqs(o, c.a.u), NoDer(o))
        s == DropScalars(c.a.u, g.sh, 1)
        t == IF giv /\ FieldScalar(o, c.a.fields[1]) THEN <<>> ELSE <<g.nc-4>>
    IN  [sh |-> s \o t, A |-> ProjectFrom(g.A, g.nc, 5, g.nc, 4)]

(* --- gradient / hessian / derivative ------------------------------------ *)
(* All partial derivatives of F = N/W up to total order k, by the quotient *)
(* recursion  W F^(al) = N^(al) - sum_{0<be<=al} C(al,be) W^(be) F^(al-be).*)
RECURSIVE SumInt(_, _)
SumInt(al, d) == IF d = 0 THEN 0 ELSE al[d] + SumInt(al, d-1)
IdxUpTo(d, k)  == {al \in [1..d -> 0..k] : SumInt(al, d) <= k}
IdxOfOrder(d, k) == {al \in [1..d -> 0..k] : SumInt(al, d) = k}
Below(d, al) == {be \in [1..d -> 0..SumInt(al, d)] :
                    SumInt(be, d) > 0 /\ \A i \in 1..d : be[i] <= al[i]}
RECURSIVE BinIdx(_, _, _)
BinIdx(al, be, d) == IF d = 0 THEN 1 ELSE Choose(al[d], be[d]) * BinIdx(al, be, d-1)

(* q: object whose components 5.. are w*F; result: partial derivatives of  *)
(* F at the grid, one flat (point, component) sequence per multi-index     *)
RECURSIVE DerLevel(_, _, _, _, _, _)
DerLevel(H, d, nc, k, m, acc) ==
    IF m > k THEN acc
    ELSE LET zero == [i \in 1..d |-> 0]
             nf == nc - 4
             np == Len(H[zero]) \div nc
             sub(al, be) == [i \in 1..d |-> al[i] - be[i]]
             val(al) ==
               LET bs == Below(d, al)
               IN TLCEval([x1 \in 1..(np*nf) |->
                    LET i == (x1-1) \div nf  c == ((x1-1) % nf) + 1
                        term(be) == RMul(BinIdx(al, be, d),
                                     RMul(H[be][i*nc+4], acc[sub(al, be)][x1]))
                        RECURSIVE tot(_)
                        tot(S) == IF S = {} THEN 0
                                  ELSE LET b == CHOOSE b \in S : TRUE
                                       IN RAdd(term(b), tot(S \ {b}))
                    IN  RDiv(RSub(H[al][i*nc+4+c], tot(bs)), H[zero][i*nc+4])])
             new == IdxOfOrder(d, m)
         IN  DerLevel(H, d, nc, k, m+1,
                TLCEval([al \in (DOMAIN acc) \cup new |->
                    IF al \in DOMAIN acc THEN acc[al] ELSE val(al)]))
Partials(q, us, k) ==
    LET d == Dim(q)
        H == TLCEval([al \in IdxUpTo(d, k) |-> Grid(q, us, al).A])
    IN  DerLevel(H, d, q.nc, k, 0, <<>>)

DerFieldObj(o, c) ==                \* what is differentiated
    IF Len(c.a.fields) = 1
    THEN WithFields(o, c.a.fields[1].A, FieldComps(o, c.a.fields[1]))
    ELSE IF o.nc > 4 THEN o
    ELSE WithFields(o, Points(o), 3)
DerSqueeze(o, c) == Len(c.a.fields) = 1 /\ FieldScalar(o, c.a.fields[1])
DerOrder(c) == CASE c.op = "gradient" -> 1 [] c.op = "hessian" -> 2 [] OTHER -> c.a.order
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n-1)
(* the multi-index of the direction tuple with row-major number n          *)
DirIdx(d, k, n) ==
    [i \in 1..d |-> Cardinality({t \in 0..(k-1) : (n \div Pow(d, t)) % d = i-1})]
DerOK(o, c) ==
    /\ ParamsOK(o, c.a.u)
    /\ Len(c.a.fields) = 1 => FieldShapeOK(o, c.a.fields[1])
    /\ DerOrder(c) \in 1..4
    /\ ~(c.a.mapped /\ DerOrder(c) > 1)      \* not supported: must be refused
DerShape(o, c, us, nf) ==
    LET s == DropScalars(c.a.u, [a \in Axes(o) |-> Len(us[a])], 1)
    IN  s \o (IF DerSqueeze(o, c) THEN <<>> ELSE <<nf>>) \o [i \in 1..DerOrder(c) |-> Dim(o)]
DerivativeFrom(o, c, Dv(_, _, _)) ==  \* parametric derivatives
    LET d == Dim(o)  k == DerOrder(c)
        q == DerFieldObj(o, c)
        us == ParamSeqs(o, c.a.u)
        D == Dv(q, us, k)
        nf == q.nc - 4
        np == Prod([a \in Axes(o) |-> Len(us[a])])
        m == Pow(d, k)
        dir == TLCEval([n1 \in 1..m |-> DirIdx(d, k, n1-1)])
    IN  [sh |-> DerShape(o, c, us, nf),
         A |-> TLCEval([x1 \in 1..(np*nf*m) |->
                    D[dir[((x1-1) % m) + 1]][((x1-1) \div m) + 1]])]

Derivative(o, c) == DerivativeFrom(o, c, Partials)

(* How large the terms are that a derivative is summed from: rounding in   *)
(* the code is relative to these, not to the (possibly cancelled) result.  *)
RowMag(o, a, us, d) ==
    LET m(i) == LET r == DerRow(o.p[a], o.U[a], us[i], d) IN RSum([j \in 1..Len(r) |-> RAbs(r[j])])
    IN  IF Len(us) = 0 THEN 0 ELSE RMaxAbs([i \in 1..Len(us) |-> m(i)])
RECURSIVE RProd(_)
RProd(s) == IF Len(s) = 0 THEN 1 ELSE RMul(s[1], RProd(Tail(s)))
RECURSIVE TermLevel(_, _, _, _, _, _)
TermLevel(G, d, k, m, ratio, acc) ==    \* G[al]: bound of |N^(al)|, |W^(al)| over max weight
    IF m > k THEN acc
    ELSE LET val(al) ==
                LET RECURSIVE tot(_)
                    tot(S) == IF S = {} THEN 0
                              ELSE LET b == CHOOSE b \in S : TRUE
                                   IN RAdd(RMul(BinIdx(al, b, d), RMul(G[b], acc[[i \in 1..d |-> al[i] - b[i]]])),
                                           tot(S \ {b}))
                IN  RMul(ratio, RAdd(G[al], tot(Below(d, al))))
         IN  TermLevel(G, d, k, m+1, ratio, TLCEval([al \in (DOMAIN acc) \cup IdxOfOrder(d, m) |->
                    IF al \in DOMAIN acc THEN acc[al] ELSE val(al)]))
TermScale(o, c) ==
    LET d == Dim(o)  k == DerOrder(c)
        q == DerFieldObj(o, c)
        us == ParamSeqs(o, c.a.u)
        rm == TLCEval([a \in Axes(o) |-> [n1 \in 1..(k+1) |-> RowMag(o, a, us[a], n1-1)]])
        G == TLCEval([al \in IdxUpTo(d, k) |-> RProd([a \in 1..d |-> rm[a][al[a]+1]])])
        poly == \A i \in 1..Prod(o.sh) : REq(Weights(o)[i], Weights(o)[1])
        big == RMaxAbs(Fields(q))
        T == TermLevel(G, d, k, 0, RDiv(RMaxAbs(Weights(o)), RAbs(MinWeight(o))), <<>>)
        g == RMaxAbs(SetToSeqR({G[al] : al \in IdxOfOrder(d, k)}))
        t == RMaxAbs(SetToSeqR({T[al] : al \in IdxOfOrder(d, k)}))
    IN  RMul(big, IF poly THEN RMax(g, RMul("1/100", t)) ELSE t)

(* A named deviation of the implementation: the fourth derivative of a     *)
(* curve is formed from the third derivatives of the basis functions.      *)
(* (The repository's own test demands a nonzero fourth derivative of a     *)
(* cubic, so this cannot be repaired under it; see known_findings.json.)   *)
PartialsCurve4(q, us, k) ==
    LET H == TLCEval([al \in IdxUpTo(1, 4) |->
                Grid(q, us, IF al[1] = 4 THEN <<3>> ELSE al).A])
    IN  DerLevel(H, 1, q.nc, 4, 0, <<>>)
Curve4(o, c) == c.op = "derivative" /\ Dim(o) = 1 /\ DerOrder(c) = 4 /\ ~c.a.mapped
DerivativeCurve4(o, c) == DerivativeFrom(o, c, PartialsCurve4)

(* Abscissae left out are computed in floating point by the code; one that *)
(* is a break up to rounding may fall on either side of it, which matters  *)
(* when the derivative jumps there.                                        *)
GrevilleAtJump(o, c) ==
    \E a \in Axes(o) :
        /\ Len(c.a.u[a]) = 0
        /\ LET p == o.p[a]  U == o.U[a]
               g == GrevilleSeq(p, U)
               b == Breaks(p, U)
               tol == RMul("1/10000000000000", RMax(RAbs(U[1]), RAbs(U[Len(U)])))
           IN  \E i \in 1..Len(g), j \in 2..(Len(b)-1) :
                   RClose(g[i], b[j], tol) /\ DerOrder(c) > p - Mult(p, U, b[j])

(* The abscissae of an object with free ends reach outside its domain,     *)
(* where the weight of a rational object, extended, may vanish.            *)
GrevilleBeyond(o, c) ==
    /\ \E a \in Axes(o) : /\ Len(c.a.u[a]) = 0
                          /\ LET g == GrevilleSeq(o.p[a], o.U[a])
                             IN  \E i \in 1..Len(g) : ~InDomain(o.p[a], o.U[a], g[i])
    /\ LET w == Weights(o) IN \E i \in 1..Len(w) : ~REq(w[i], w[1])

(* Mapped gradient g: it is the gradient in the first dim(o) physical      *)
(* coordinates, i.e. J^T g = (parametric gradient) with J = dx/du.         *)
GradJacobian(o, us) ==              \* entry (point, i, j) = dx_i / du_j
    LET d == Dim(o)
        D == Partials(WithFields(o, Points(o), 3), us, 1)
        np == Prod([a \in Axes(o) |-> Len(us[a])])
        e(j) == [a \in 1..d |-> IF a = j THEN 1 ELSE 0]
    IN  TLCEval([x1 \in 1..(np*d*d) |->
            LET i == (x1-1) \div (d*d)  r == ((x1-1) \div d) % d  j == ((x1-1) % d) + 1
            IN  D[e(j)][i*3 + r + 1]])
Det(M, d) ==                        \* M: d*d entries, row major
    IF d = 1 THEN M[1]
    ELSE IF d = 2 THEN RSub(RMul(M[1], M[4]), RMul(M[2], M[3]))
    ELSE LET m2(a, b, c, e) == RSub(RMul(M[a], M[e]), RMul(M[b], M[c]))
         IN  RAdd(RSub(RMul(M[1], m2(5, 6, 8, 9)), RMul(M[2], m2(4, 6, 7, 9))),
                  RMul(M[3], m2(4, 5, 7, 8)))
RECURSIVE LeastOf(_)
LeastOf(x) == IF Len(x) = 1 THEN x[1] ELSE RMin(x[1], LeastOf(Tail(x)))
MappedVerdict(o, c, obs) ==
    LET d == Dim(o)
        us == ParamSeqs(o, c.a.u)
        G == Derivative(o, c)       \* parametric gradient (point, comp, j)
        J == GradJacobian(o, us)
        nf == DerFieldObj(o, c).nc - 4
        np == Prod([a \in Axes(o) |-> Len(us[a])])
        Jp(i) == SubSeq(J, i*d*d+1, (i+1)*d*d)
        (* what the terms of a derivative along an axis may be worth: they *)
        (* may cancel and leave their rounding errors                      *)
        fo == DerFieldObj(o, c)
        noise == TLCEval([a \in 1..d |->
            LET b == Breaks(o.p[a], o.U[a])
                s == LeastOf([e \in 1..(Len(b)-1) |-> RSub(b[e+1], b[e])])
            IN  RDiv(RMul(o.p[a], RMaxAbs([x1 \in 1..(Prod(o.sh)*nf) |->
                        Comp(fo.A, fo.nc, (x1-1) \div nf, 5 + ((x1-1) % nf))])), s)])
        bad(i, f, j) ==
            LET g(r) == obs.A[(i*nf + f)*d + r + 1]
                jj(r) == J[i*d*d + r*d + j + 1]
                lhs == RSum([r1 \in 1..d |-> RMul(g(r1-1), jj(r1-1))])
                mag == RSum([r1 \in 1..d |-> RAbs(RMul(g(r1-1), jj(r1-1)))])
            IN  ~RClose(lhs, G.A[(i*nf + f)*d + j + 1],
                        RMax(RMul("1/10000000", RMax(mag, RMaxAbs(G.A))),
                             RMul("1/10000000000", noise[j+1])))
    IN  IF \E i \in 0..(np-1) : REq(Det(Jp(i), d), 0) THEN ""     \* degenerate map: not specified
        ELSE IF obs.sh # G.sh THEN "result-shape"
        ELSE IF Len(obs.A) # Len(G.A) THEN "result-size"
        ELSE IF ~RAllFinite(obs.A) THEN "result-not-finite"
        ELSE IF \E i \in 0..(np-1), f \in 0..(nf-1), j \in 0..(d-1) : bad(i, f, j)
             THEN "chain-rule" ELSE ""

----------------------------------------------------------------------------
(* Breaks with multiplicities, spans, abscissae (one axis).                *)
BreakMults(p, U) ==
    LET b == Breaks(p, U) IN [i \in 1..Len(b) |-> Mult(p, U, b[i])]
SpanSeq(p, U) ==
    SelectSeq([i \in 1..(LastCP(p, U)-p+1) |-> p+i-1],
              LAMBDA k : RLt(Kn(U, k), Kn(U, k+1)))
(* p+1 points per span, shared at breaks: nodes x in [-1,1] mapped affinely *)
SpanNodes(p, U, x) ==
    LET b == Breaks(p, U)
        n == (Len(b)-1)*p + 1
    IN  TLCEval([i1 \in 1..n |->
            LET i == i1-1  e == i \div p  k == i % p
            IN  IF k = 0 THEN b[e+1]
                ELSE RAdd(b[e+1], RMul(RSub(b[e+2], b[e+1]), RDiv(RAdd(x[k+1], 1), 2)))])
LagrangeSeq(p, U) ==
    IF p < 2 THEN Breaks(p, U)
    ELSE SpanNodes(p, U, [k \in 1..(p+1) |-> RSub(RDiv(2*(k-1), p), 1)])
=============================================================================
