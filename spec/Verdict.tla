------------------------------ MODULE Verdict ------------------------------
(***************************************************************************)
(* Total verdicts: does an observed object / array agree with what the     *)
(* specification demands?  "" means yes; otherwise the name of the first   *)
(* clause that fails.                                                      *)
(***************************************************************************)
EXTENDS Nurbs

NetTol  == "1/1000000000"         \* 1e-9 of the magnitude of the data
KnotTol == "1/10000000000000"     \* 1e-13 of the magnitude of the knots

Num(n) == ToString(n)
KnotScale(U) == RMax(RAbs(U[1]), RAbs(U[Len(U)]))

FirstBad(n, f(_)) ==              \* first nonempty f(i), i in 1..n
    LET bad == SelectSeq([i \in 1..n |-> f(i)], LAMBDA x : x # "")
    IN  IF Len(bad) = 0 THEN "" ELSE bad[1]

KnotVerdict(p, obs, exp, rounded) ==
    IF Len(obs) # Len(exp) THEN "knot-count"
    ELSE IF ~RAllFinite(obs) THEN "knots-not-finite"
    ELSE IF ~rounded
    THEN (IF RMismatch(obs, exp, 0) # 0 THEN "knot-values" ELSE "")
    ELSE IF RMismatch(obs, exp, RMul(KnotTol, KnotScale(exp))) # 0 THEN "knot-values"
    ELSE IF ~REq(obs[p+1], exp[p+1]) \/ ~REq(obs[Len(obs)-p], exp[Len(exp)-p])
         THEN "domain-ends-moved"
    ELSE IF ~Sorted(obs) THEN "knots-not-sorted"
    ELSE IF \E i \in 1..(Len(exp)-1) : REq(exp[i], exp[i+1]) /\ ~REq(obs[i], obs[i+1])
         THEN "knot-multiplicity"
    ELSE ""

(* shape and finiteness of an observed object, before anything is computed *)
FormVerdict(o) ==
    IF Len(o.U) # Len(o.p) \/ Len(o.sh) # Len(o.p) THEN "dimension"
    ELSE IF o.nc < 4 \/ Len(o.A) # Prod(o.sh) * o.nc THEN "array-size"
    ELSE IF ~RAllFinite(o.A) THEN "net-not-finite"
    ELSE IF \E a \in Axes(o) : ~RAllFinite(o.U[a]) THEN "knots-not-finite"
    ELSE IF \E a \in Axes(o) : ~ValidSpace(o.p[a], o.U[a]) THEN "knot-vector-invalid"
    ELSE IF \E a \in Axes(o) : o.sh[a] # NumCP(o.p[a], o.U[a]) THEN "shape-vs-knots"
    ELSE ""

ObjVerdict(obs, exp, rounded, scale) ==
    IF obs.p # exp.p THEN "degree"
    ELSE IF Len(obs.U) # Len(exp.U) THEN "dimension"
    ELSE IF obs.sh # exp.sh THEN "shape"
    ELSE IF obs.nc # exp.nc THEN "components"
    ELSE LET k == FirstBad(Len(exp.U), LAMBDA a : KnotVerdict(exp.p[a], obs.U[a], exp.U[a], rounded))
         IN  IF k # "" THEN k
    ELSE LET f == FormVerdict(obs) IN IF f # "" THEN f
    ELSE IF RMismatch(LiveNet(exp, obs.A), LiveNet(exp, exp.A), RMul(NetTol, RMax(RMaxAbs(exp.A), scale))) # 0
         THEN "control-net" ELSE ""

(* values sh x A *)
ArrVerdict(obs, sh, A, scale) ==
    IF obs.sh # sh THEN "result-shape"
    ELSE IF Len(obs.A) # Len(A) THEN "result-size"
    ELSE IF ~RAllFinite(obs.A) THEN "result-not-finite"
    ELSE IF RMismatch(obs.A, A, RMul(NetTol, RMax(RMaxAbs(A), scale))) # 0
         THEN "result-values" ELSE ""
=============================================================================
