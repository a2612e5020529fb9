------------------------------ MODULE Kernels ------------------------------
(***************************************************************************)
(* The compiled basis-function kernels: spans, basis functions and their   *)
(* derivatives, quadrature and collocation tables, rules, knot vectors.    *)
(***************************************************************************)
EXTENDS Query, Verdict

KernelOps == {"FindSpan", "FindMult", "FindSpanMult", "EvalBasisFuns", "EvalBasisFunsDers",
              "SpanIndex", "Greville", "igaGreville", "BasisData", "BasisDataCol",
              "GaussLegendreRule", "GaussLobattoRule", "KnotVector"}
Opt(s, d) == IF Len(s) = 0 THEN d ELSE s[1]

SpaceOK(c) == c.a.p >= 1 /\ Len(c.a.U) >= 2*c.a.p + 2
DersOK(c) == Opt(c.a.d, c.a.p) \in 0..c.a.p
(* "must" be accepted, "mustnot", or "any"                                 *)
KernelStatus(c) ==
    LET f(b) == IF b THEN "must" ELSE "mustnot"
        dom(x) == InDomain(c.a.p, c.a.U, x)
    IN  CASE c.op \in {"FindSpan", "FindMult", "FindSpanMult", "EvalBasisFuns"} ->
                IF ~SpaceOK(c) THEN "mustnot" ELSE IF dom(c.a.u) THEN "must" ELSE "any"
          [] c.op = "EvalBasisFunsDers" ->
                IF ~SpaceOK(c) \/ ~DersOK(c) THEN "mustnot" ELSE IF dom(c.a.u) THEN "must" ELSE "any"
          [] c.op \in {"SpanIndex", "Greville", "igaGreville"} -> f(SpaceOK(c))
          [] c.op = "BasisData" ->
                f(SpaceOK(c) /\ DersOK(c) /\ Opt(c.a.q, c.a.p + 1) \in 1..10)
          [] c.op = "BasisDataCol" ->
                IF ~SpaceOK(c) \/ ~DersOK(c) \/ Len(c.a.X) = 0 THEN "mustnot"
                ELSE IF \A i \in 1..Len(c.a.X) : dom(c.a.X[i]) THEN "must" ELSE "any"
          [] c.op = "GaussLegendreRule" -> f(c.a.q \in 1..10)
          [] c.op = "GaussLobattoRule" -> f(c.a.q \in 2..10)
          [] c.op = "KnotVector" ->
                IF c.a.E < 1 \/ c.a.p < 1 \/ Opt(c.a.C, c.a.p - 1) \notin 0..(c.a.p - 1) THEN "mustnot"
                ELSE IF RLt(Opt(c.a.Ui, 0), Opt(c.a.Uf, 1)) THEN "must" ELSE "any"

KSpan(c, u) == IF Len(c.a.span) = 1 /\ c.a.span[1] >= 0 THEN c.a.span[1] ELSE Span(c.a.p, c.a.U, u)

(* rounding of derivative k of a basis function is relative to its size    *)
BasisClose(obs, exp) ==
    \/ ~RLt(RMaxAbs(exp), "1e30")
    \/ RMismatch(obs, exp, RMul(NetTol, RMax(RMaxAbs(exp), 1))) = 0

(* Derivatives divide by spans; across spans of a few last bits their terms *)
(* cancel beyond what the coordinates resolve.                              *)
Resolved(p, U, n) ==
    \/ n = 0
    \/ LET b == Breaks(p, U)
       IN  \A e \in 1..(Len(b)-1) : RLt(RMul("1/1000000000", KnotScale(U)), RSub(b[e+1], b[e]))
DersClose(p, U, n, obs, exp) == ~Resolved(p, U, n) \/ BasisClose(obs, exp)

(* sum of w x^k against the integral of x^k over [-1, 1]                   *)
RECURSIVE RPow(_, _)
RPow(x, n) == IF n = 0 THEN 1 ELSE RMul(x, RPow(x, n-1))
RuleVerdict(X, W, q, deg, closed) ==
    IF Len(X) # q \/ Len(W) # q THEN "rule-size"
    ELSE IF ~RAllFinite(X) \/ ~RAllFinite(W) THEN "rule-not-finite"
    ELSE IF \E i \in 1..(q-1) : ~RLt(X[i], X[i+1]) THEN "rule-order"
    ELSE IF closed /\ (~REq(X[1], -1) \/ ~REq(X[q], 1)) THEN "rule-ends"
    ELSE IF ~closed /\ (~RLt(-1, X[1]) \/ ~RLt(X[q], 1)) THEN "rule-outside"
    ELSE IF \E k \in 0..deg :
              ~RClose(RSum([i \in 1..q |-> RMul(W[i], RPow(X[i], k))]),
                      IF k % 2 = 0 THEN RDiv(2, k+1) ELSE 0, "1/10000000000000")
         THEN "rule-not-exact" ELSE ""

UniformKnots(E, p, C, a, b) ==
    LET x(i) == RAdd(a, RMul(RDiv(i, E), RSub(b, a)))
        RECURSIVE inner(_)
        inner(i) == IF i >= E THEN <<>> ELSE Rep(x(i), p-C) \o inner(i+1)
    IN  Rep(a, p+1) \o inner(1) \o Rep(b, p+1)
GridKnots(E, p, C, a, b, wrap) ==
    LET U == TLCEval(UniformKnots(E, p, C, a, b))
    IN  IF wrap THEN UnclampSides(p, U, C, TRUE, TRUE) ELSE U

KernelVerdict(c, v) ==
    LET p == c.a.p  U == c.a.U
        dom(x) == InDomain(p, U, x)
    IN  CASE c.op = "FindSpan" ->
                IF dom(c.a.u) /\ v.k # Span(p, U, c.a.u) THEN "span" ELSE ""
          [] c.op = "FindMult" ->
                IF dom(c.a.u) /\ v.s # CountEq(U, c.a.u) THEN "mult" ELSE ""
          [] c.op = "FindSpanMult" ->
                IF ~dom(c.a.u) THEN ""
                ELSE IF v.k # Span(p, U, c.a.u) THEN "span"
                ELSE IF v.s # CountEq(U, c.a.u) THEN "mult" ELSE ""
          [] c.op = "EvalBasisFuns" ->
                IF ~dom(c.a.u) THEN ""
                ELSE IF v.sh # <<p+1>> THEN "shape"
                ELSE IF ~RAllFinite(v.A) /\ Len(c.a.span) = 0 THEN "not-finite"
                ELSE IF ~BasisClose(v.A, DerRowAt(p, U, KSpan(c, c.a.u), c.a.u, 0)) THEN "values" ELSE ""
          [] c.op = "EvalBasisFunsDers" ->
                LET d == Opt(c.a.d, p)  k == KSpan(c, c.a.u)
                IN  IF ~dom(c.a.u) THEN ""
                    ELSE IF v.sh # <<d+1, p+1>> THEN "shape"
                    ELSE IF ~RAllFinite(v.A) /\ Len(c.a.span) = 0 THEN "not-finite"
                    ELSE IF \E n \in 0..d :
                            ~DersClose(p, U, n, SubSeq(v.A, n*(p+1)+1, (n+1)*(p+1)), DerRowAt(p, U, k, c.a.u, n))
                         THEN "values" ELSE ""
          [] c.op = "SpanIndex" -> IF v.k # SpanSeq(p, U) THEN "spans" ELSE ""
          [] c.op \in {"Greville", "igaGreville"} ->
                LET g == GrevilleSeq(p, U)
                IN  IF v.sh # <<Len(g)>> THEN "shape"
                    ELSE IF RMismatch(v.A, g, RMul("1/10000000000000", KnotScale(U))) # 0 THEN "values" ELSE ""
          [] c.op = "BasisData" ->
                LET d == Opt(c.a.d, p)  q == Opt(c.a.q, p + 1)
                    S == SpanSeq(p, U)  r == Len(S)
                    lo(e) == Kn(U, S[e])  hi(e) == Kn(U, S[e]+1)
                    x(e, i) == v.X.A[(e-1)*q + i]
                    ref(e) == [i \in 1..q |-> RSub(RDiv(RMul(2, RSub(x(e, i), lo(e))), RSub(hi(e), lo(e))), 1)]
                    (* N(e, i, a, n)                                       *)
                    row(e, i, n) == [a \in 1..(p+1) |->
                        v.N.A[((((e-1)*q + (i-1))*(p+1)) + (a-1))*(d+1) + n + 1]]
                IN  IF v.O # [e \in 1..r |-> S[e] - p] THEN "first-basis"
                    ELSE IF v.X.sh # <<r, q>> \/ v.N.sh # <<r, q, p+1, d+1>> THEN "shape"
                    ELSE IF Len(v.J) # r \/ Len(v.W) # q THEN "shape"
                    ELSE IF ~RAllFinite(v.X.A) \/ ~RAllFinite(v.N.A) \/ ~RAllFinite(v.J) THEN "not-finite"
                    ELSE IF \E e \in 1..r : ~RClose(v.J[e], RDiv(RSub(hi(e), lo(e)), 2),
                                                    RMul("1/1000000000000000", KnotScale(U))) THEN "half-length"
                    ELSE IF RuleVerdict(v.Xg, v.W, q, 2*q-1, FALSE) # "" THEN RuleVerdict(v.Xg, v.W, q, 2*q-1, FALSE)
                    ELSE IF \E e \in 1..r : RMismatch(ref(e), v.Xg,
                              RMul("1/100000000000000", RDiv(KnotScale(U), RSub(hi(e), lo(e))))) # 0 THEN "points"
                    ELSE IF \E e \in 1..r, i \in 1..q, n \in 0..d :
                              ~DersClose(p, U, n, row(e, i, n), DerRowAt(p, U, S[e], x(e, i), n)) THEN "values" ELSE ""
          [] c.op = "BasisDataCol" ->
                LET d == Opt(c.a.d, p)  n1 == Len(c.a.X)
                    k(i) == Span(p, U, c.a.X[i])
                    row(i, n) == [a \in 1..(p+1) |-> v.N.A[((i-1)*(p+1) + (a-1))*(d+1) + n + 1]]
                IN  IF \E i \in 1..n1 : ~dom(c.a.X[i]) THEN ""
                    ELSE IF v.O # [i \in 1..n1 |-> k(i) - p] THEN "first-basis"
                    ELSE IF v.N.sh # <<n1, p+1, d+1>> THEN "shape"
                    ELSE IF ~RAllFinite(v.N.A) THEN "not-finite"
                    ELSE IF \E i \in 1..n1, n \in 0..d :
                              ~DersClose(p, U, n, row(i, n), DerRowAt(p, U, k(i), c.a.X[i], n)) THEN "values" ELSE ""
          [] c.op = "GaussLegendreRule" -> RuleVerdict(v.X, v.W, c.a.q, 2*c.a.q - 1, FALSE)
          [] c.op = "GaussLobattoRule"  -> RuleVerdict(v.X, v.W, c.a.q, 2*c.a.q - 3, TRUE)
          [] c.op = "KnotVector" ->
                LET a == Opt(c.a.Ui, 0)  b == Opt(c.a.Uf, 1)
                    e == GridKnots(c.a.E, c.a.p, Opt(c.a.C, c.a.p - 1), a, b, c.a.wrap)
                IN  IF ~RLt(a, b) THEN "" ELSE KnotVerdict(c.a.p, v.A, e, TRUE)
=============================================================================
