------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* The verdict on one recorded event, given the state before it.           *)
(*                                                                         *)
(* An event: op, self, a (arguments), raised ("" or the exception's name), *)
(* crash ("" or how the process ended), ret ("self","new","none","value",  *)
(* "other"), out (names bound to results), heap (all objects afterwards),  *)
(* val (returned values), pre/post (caller-owned arrays before/after).     *)
(*                                                                         *)
(* A heap entry is a Nurbs value or a transform [M |-> 16 numbers]; the    *)
(* entry "root" is a dummy that keeps the record nonempty.                 *)
(***************************************************************************)
EXTENDS Plot

EmptyHeap == [root |-> ""]
NextHeap(heap, ev) == ev.heap

QueryOps  == {"call", "evaluate", "gradient", "hessian", "derivative",
              "breaks", "spans", "greville", "lagrange", "lobatto", "attrs"}
AffineOps == {"transform", "translate", "move", "scale", "rotate"}
MatOps    == {"t_new", "t_translate", "t_move", "t_scale", "t_rotate", "t_compose",
              "t_invert", "t_inverse", "t_copy", "t_clone", "t_apply", "t_array"}

(* "must" be accepted, "mustnot" be accepted (must raise), or "any"        *)
Flag(b) == IF b THEN "must" ELSE "mustnot"

AffineArgsOK(c) ==
    CASE c.op = "transform" -> TRUE
      [] c.op \in {"translate", "move", "t_translate", "t_move"} -> TranslateOK(c.a.d, c.a.axis)
      [] c.op \in {"scale", "t_scale"} -> ScaleOK(c.a.d, c.a.axis)
      [] c.op \in {"rotate", "t_rotate"} -> RotateOK(c.a.angle, c.a.ax)
AffineMat(c) ==
    CASE c.op = "transform" -> AsMat(c.a.M)
      [] c.op \in {"translate", "move", "t_translate", "t_move"} -> TranslateMat(c.a.d, c.a.axis)
      [] c.op \in {"scale", "t_scale"} -> ScaleMat(c.a.d, c.a.axis)
      [] c.op \in {"rotate", "t_rotate"} -> RotateMat(c.a.angle, c.a.ax)

QueryOK(heap, c) ==
    LET o == heap[c.self]
    IN  CASE c.op = "call" -> CallOK(o, c)
          [] c.op = "evaluate" -> EvalFieldsOK(o, c)
          [] c.op \in {"gradient", "hessian", "derivative"} -> DerOK(o, c)
          [] c.op = "attrs" -> TRUE
          [] OTHER -> Len(c.a.axis) = 0 \/ ValidAxis(o, c.a.axis[1])

EmptyParams(c) ==                   \* no parameters at all: may be refused
    c.op \in {"call", "evaluate", "gradient", "hessian", "derivative"}
    /\ \E i \in 1..Len(c.a.u) : Len(c.a.u[i]) = 1 /\ Len(c.a.u[i][1].x) = 0

Status(heap, c) ==
    CASE c.op \in InPlaceOps \cup NewObjOps -> Flag(Pre(heap, c))
      [] c.op = "transform" -> IF Len(c.a.M) = 16 THEN "must" ELSE "any"
      [] c.op \in AffineOps \cup {"t_translate", "t_move", "t_scale", "t_rotate"} -> Flag(AffineArgsOK(c))
      [] c.op = "t_new" -> IF Len(c.a.M) = 0 \/ Len(c.a.M[1]) = 16 THEN "must" ELSE "any"
      [] c.op \in {"t_compose", "t_copy", "t_clone", "t_array"} -> "must"
      [] c.op \in {"t_invert", "t_inverse"} -> IF Invertible(heap[c.self].M) THEN "must" ELSE "any"
      [] c.op = "t_apply" -> IF c.a.X.sh[Len(c.a.X.sh)] = 4 THEN "must" ELSE "any"
      [] c.op \in KernelOps -> KernelStatus(c)
      [] c.op \in CadOps -> CadStatus(heap, c)
      [] c.op \in IoOps -> IoStatus(heap, c)
      [] c.op \in PlotOps \cup BackendOps -> PlotStatus(heap, c)
      [] c.op = "new" -> ConStatus(c.a)
      [] c.op \in {"write", "given"} -> "must"
      [] c.op \in QueryOps ->
            IF EmptyParams(c) THEN "any" ELSE Flag(QueryOK(heap, c))
      [] OTHER -> "any"

----------------------------------------------------------------------------
(* What happened to the heap.                                              *)
Frame(heap, ev, written) ==         \* everything else exactly as it was
    IF DOMAIN ev.heap # DOMAIN heap \cup written THEN "objects-appeared-or-vanished"
    ELSE IF \E n \in DOMAIN heap \ written : ev.heap[n] # heap[n] THEN "other-object-changed"
    ELSE ""
First(a, b) == IF a # "" THEN a ELSE b

(* Elevation subtracts nearly equal points where a span is much narrower   *)
(* than its neighbours, unclamping extrapolates p-1 times: the rounding    *)
(* allowed grows with that ratio.                                          *)
NarrowSpan(p, U) ==
    LET b == Breaks(p, U)
        w == [i \in 1..(Len(b)-1) |-> RDiv(RSub(b[Len(b)], b[1]), RSub(b[i+1], b[i]))]
    IN  RMaxAbs(w)
Rounding(o, ev) ==
    IF ev.op = "elevate" /\ AxisOf(o, ev.a.axis) # 0
    THEN LET a == AxisOf(o, ev.a.axis)
             w == NarrowSpan(o.p[a], o.U[a])    \* several narrow ones multiply
         IN  RMul(RMaxAbs(o.A), RAdd(1, IF RLt(w, 100000000) THEN RMul("1/50000", w) ELSE RMul(RMul(w, w), w)))
    ELSE IF ev.op = "unclamp" /\ AxisOf(o, ev.a.axis) # 0
    THEN LET a == AxisOf(o, ev.a.axis)
             w == NarrowSpan(o.p[a], o.U[a])
             RECURSIVE pow(_)
             pow(k) == IF k = 0 THEN 1 ELSE RMul(w, pow(k-1))
         IN  RMul(RMaxAbs(o.A), RAdd(1, RMul("1/10000000", pow(o.p[a]-1))))
    ELSE RMaxAbs(o.A)
ModelVerdict(heap, ev) ==
    IF ev.op = "remove" THEN
        First(Frame(heap, ev, {ev.self}),
        IF ev.ret # "self" THEN "not-in-place"
        ELSE RemoveVerdict(heap[ev.self], ev.heap[ev.self], ev))
    ELSE IF ev.op \in InPlaceOps \cup AffineOps THEN
        First(Frame(heap, ev, {ev.self}),
        IF ev.ret # "self" THEN "not-in-place"
        ELSE LET exp == IF ev.op \in AffineOps
                        THEN Transform(heap[ev.self], AffineMat(ev))
                        ELSE Result(heap, ev)
             IN  ObjVerdict(ev.heap[ev.self], exp, RoundedKnots(ev), Rounding(heap[ev.self], ev)))
    ELSE
        First(Frame(heap, ev, {ev.out[1]}),
        IF ev.ret # "new" THEN "not-a-new-object"
        ELSE ObjVerdict(ev.heap[ev.out[1]], Result(heap, ev), FALSE, RMaxAbs(heap[ev.self].A)))

----------------------------------------------------------------------------
PerAxis(o, c, f(_)) ==              \* axis given: one sequence; not given: all axes
    IF Len(c.a.axis) = 1 THEN <<f(AxisOf(o, c.a.axis[1]))>> ELSE [a \in Axes(o) |-> f(a)]
SeqVerdict(obs, exp, tol, what) ==
    IF Len(obs) # Len(exp) THEN what \o "-count"
    ELSE IF ~RAllFinite(obs) THEN what \o "-not-finite"
    ELSE IF RMismatch(obs, exp, tol) # 0 THEN what \o "-values" ELSE ""
AbscTol(o, a) == RMul("1/1000000000000", KnotScale(o.U[a]))
SeqsVerdict(obs, o, c, f(_), tolf(_), what) ==
    LET exp == PerAxis(o, c, f)
    IN  IF Len(obs) # Len(exp) THEN what \o "-axes"
        ELSE FirstBad(Len(exp), LAMBDA i : SeqVerdict(obs[i], exp[i],
                 tolf(IF Len(c.a.axis) = 1 THEN AxisOf(o, c.a.axis[1]) ELSE i), what))
(* Derivative of the Legendre polynomial of degree n at x                  *)
RECURSIVE Legendre(_, _)
Legendre(n, x) == IF n = 0 THEN 1 ELSE IF n = 1 THEN x
    ELSE LET a == TLCEval(Legendre(n-1, x))  b == TLCEval(Legendre(n-2, x))
         IN  RDiv(RSub(RMul(RMul(2*n-1, x), a), RMul(n-1, b)), n)
LegendreDerX2M1(n, x) ==            \* (x^2-1) P_n'(x) / n = x P_n - P_{n-1}
    RSub(RMul(x, Legendre(n, x)), Legendre(n-1, x))
LobattoVerdict(p, U, obs) ==
    IF p < 2 THEN SeqVerdict(obs, Breaks(p, U), 0, "lobatto")
    ELSE LET b == Breaks(p, U)
             ref(i) == LET e == (i-1) \div p + 1
                       IN RSub(RDiv(RMul(2, RSub(obs[i], b[e])), RSub(b[e+1], b[e])), 1)
         IN  IF Len(obs) # (Len(b)-1)*p + 1 THEN "lobatto-count"
             ELSE IF ~RAllFinite(obs) THEN "lobatto-not-finite"
             ELSE IF \E i \in 1..Len(obs) : (i-1) % p = 0 /\ ~REq(obs[i], b[(i-1) \div p + 1])
                  THEN "lobatto-not-at-breaks"
             ELSE IF \E i \in 1..(Len(obs)-1) : ~RLt(obs[i], obs[i+1]) THEN "lobatto-order"
             ELSE IF \E i \in 1..Len(obs) : (i-1) % p # 0 /\
                        RLt("1/100000000", RAbs(LegendreDerX2M1(p, ref(i))))
                  THEN "lobatto-not-a-root" ELSE ""
(* unclamping can make a weight vanish; its point is then at infinity      *)
WeightsVanish(o) ==
    \E i \in 1..Prod(o.sh) : RLt(RAbs(Weights(o)[i]), RMul("1/1000000", RMaxAbs(Weights(o))))
AttrsVerdict(o, v) ==
    IF v.dim # Dim(o) THEN "dim"
    ELSE IF v.degree # o.p THEN "degree"
    ELSE IF v.shape # o.sh THEN "shape"
    ELSE First(FirstBad(Dim(o), LAMBDA a : SeqVerdict(v.knots[a], o.U[a], 0, "knots")),
         First(ArrVerdict(v.array, o.sh \o <<o.nc>>, o.A, 0),
         First(ArrVerdict(v.control, o.sh \o <<4>>,
                   [x1 \in 1..(Prod(o.sh)*4) |-> Comp(o.A, o.nc, (x1-1) \div 4, ((x1-1) % 4) + 1)], 0),
         First(ArrVerdict(v.weights, o.sh, Weights(o), 0),
         IF WeightsVanish(o) THEN ""
         ELSE First(ArrVerdict(v.points, o.sh \o <<3>>, Points(o), 0),
               IF o.nc = 4 THEN (IF Len(v.fields) = 0 THEN "" ELSE "fields-invented")
               ELSE IF Len(v.fields) = 0 THEN "fields-lost"
               ELSE ArrVerdict(v.fields[1], o.sh \o <<o.nc-4>>, Fields(o), 0))))))

Beyond(o, ev, r) == IF r = "result-values" /\ GrevilleBeyond(o, ev) THEN "" ELSE r
QueryVerdict(heap, ev) ==
    LET o == heap[ev.self]
        v == ev.val
        brk(a) == Breaks(o.p[a], o.U[a])
        mul(a) == BreakMults(o.p[a], o.U[a])
        spn(a) == SpanSeq(o.p[a], o.U[a])
        grv(a) == GrevilleSeq(o.p[a], o.U[a])
        lag(a) == LagrangeSeq(o.p[a], o.U[a])
        none(a) == 0
        abt(a) == AbscTol(o, a)
    IN  CASE ev.op = "call" ->
                LET e == CallPoints(o, ev)
                IN  IF Len(v) # Len(e) THEN "result-count"
                    ELSE FirstBad(Len(e), LAMBDA i :
                            Beyond(o, ev, ArrVerdict(v[i], e[i].sh, e[i].A, RMaxAbs(o.A))))
          [] ev.op = "evaluate" ->
                LET e == EvalFields(o, ev) IN Beyond(o, ev, ArrVerdict(v[1], e.sh, e.A, 0))
          \* (a point at infinity has no field value to start from)
          [] ev.op \in {"gradient", "hessian", "derivative"} /\ Len(ev.a.fields) = 0 /\ WeightsVanish(o) -> ""
          [] ev.op \in {"gradient", "hessian", "derivative"} /\ ~ev.a.mapped ->
                LET e == Derivative(o, ev)
                    t == RMax(1, RMul("1/1000", TermScale(o, ev)))
                    r == Beyond(o, ev, ArrVerdict(v[1], e.sh, e.A, t))
                IN  IF r = "result-values" /\ GrevilleAtJump(o, ev) THEN ""
                    ELSE IF r = "result-values" /\ Curve4(o, ev)
                       /\ (LET w == DerivativeCurve4(o, ev) IN ArrVerdict(v[1], w.sh, w.A, t)) = ""
                    THEN "known-curve-fourth-derivative" ELSE r
          [] ev.op \in {"gradient", "derivative"} /\ ev.a.mapped ->
                IF GrevilleAtJump(o, ev) \/ GrevilleBeyond(o, ev) THEN "" ELSE MappedVerdict(o, ev, v[1])
          [] ev.op = "breaks" ->
                First(SeqsVerdict(v.u, o, ev, brk, none, "breaks"),
                      IF ev.a.mults THEN SeqsVerdict(v.s, o, ev, mul, none, "mults") ELSE "")
          [] ev.op = "spans" -> SeqsVerdict(v.u, o, ev, spn, none, "spans")
          [] ev.op = "greville" -> SeqsVerdict(v.u, o, ev, grv, abt, "greville")
          [] ev.op = "lagrange" -> SeqsVerdict(v.u, o, ev, lag, abt, "lagrange")
          [] ev.op = "lobatto" ->
                LET n == IF Len(ev.a.axis) = 1 THEN 1 ELSE Dim(o)
                IN  IF Len(v.u) # n THEN "lobatto-axes"
                    ELSE FirstBad(n, LAMBDA i :
                        LET a == IF n = 1 /\ Len(ev.a.axis) = 1 THEN AxisOf(o, ev.a.axis[1]) ELSE i
                        IN  LobattoVerdict(o.p[a], o.U[a], v.u[i]))
          [] ev.op = "attrs" -> AttrsVerdict(o, v)

----------------------------------------------------------------------------
(* The transform class.                                                    *)
MatClose(obs, exp, mag) ==
    IF Len(obs) # 16 THEN "matrix-shape"
    ELSE IF ~RAllFinite(obs) THEN "matrix-not-finite"
    ELSE IF RMismatch(obs, exp, RMul("1/10000000000000", mag)) # 0 THEN "matrix-values" ELSE ""
MatVerdict(heap, ev) ==
    LET inplace == ev.op \in {"t_translate", "t_move", "t_scale", "t_rotate", "t_compose", "t_invert"}
        nm == IF inplace THEN ev.self ELSE ev.out[1]
        obs == ev.heap[nm].M
        old == heap[ev.self].M
        L == IF ev.op = "t_compose" THEN AsMat(ev.a.M) ELSE AffineMat(ev)
    IN  IF ev.op = "t_array" THEN First(Frame(heap, ev, {}), ArrVerdict(ev.val[1], <<4, 4>>, old, 0))
        ELSE IF ev.op = "t_apply" THEN
            LET k == Prod(ev.a.X.sh)
                e == TLCEval([i \in 1..k |-> MatVec4(old, SubSeq(ev.a.X.A, ((i-1) \div 4)*4 + 1, ((i-1) \div 4)*4 + 4))[((i-1) % 4) + 1]])
            IN  First(Frame(heap, ev, {}),
                IF ev.a.X.sh[Len(ev.a.X.sh)] # 4 THEN ""
                ELSE ArrVerdict(ev.val[1], ev.a.X.sh, e, RMul(RMaxAbs(old), RMaxAbs(ev.a.X.A))))
        ELSE First(Frame(heap, ev, {nm}),
             IF inplace /\ ev.ret # "self" THEN "not-in-place"
             ELSE IF ~inplace /\ ev.ret # "new" THEN "not-a-new-object"
             ELSE CASE ev.op = "t_new" ->
                         MatClose(obs, IF Len(ev.a.M) = 0 THEN Identity4 ELSE AsMat(ev.a.M[1]), 0)
                    [] ev.op \in {"t_copy", "t_clone"} -> MatClose(obs, old, 0)
                    [] ev.op \in {"t_invert", "t_inverse"} ->
                         IF ~Invertible(old) THEN ""
                         ELSE IF ~RAllFinite(obs) THEN "matrix-not-finite"
                         ELSE MatClose(MatMul4(obs, old), Identity4, RMul(RMul(40, RMaxAbs(old)), RMul(RMaxAbs(obs), RMul(RMaxAbs(old), RMaxAbs(obs)))))
                    [] OTHER -> MatClose(obs, MatMul4(L, old), RMul(RMul(8, RMaxAbs(old)), RMaxAbs(L))))

----------------------------------------------------------------------------
Effect(heap, ev) ==
    CASE ev.op \in InPlaceOps \cup NewObjOps \cup AffineOps -> ModelVerdict(heap, ev)
      [] ev.op \in QueryOps -> First(Frame(heap, ev, {}), QueryVerdict(heap, ev))
      [] ev.op \in MatOps -> MatVerdict(heap, ev)
      [] ev.op \in KernelOps -> First(Frame(heap, ev, {}), KernelVerdict(ev, ev.val))
      [] ev.op = "new" -> First(Frame(heap, ev, {ev.out[1]}),
                               IF ev.ret # "new" THEN "not-a-new-object" ELSE ConVerdict(heap, ev))
      [] ev.op \in CadOps -> First(Frame(heap, ev, Seq2Set(ev.out)),
                               IF ev.ret # "new" THEN "not-a-new-object" ELSE CadVerdict(heap, ev))
      [] ev.op \in IoOps -> First(Frame(heap, ev, Seq2Set(ev.out)), IoVerdict(heap, ev))
      [] ev.op \in PlotOps \cup BackendOps -> PlotVerdict(heap, ev)
      [] ev.op = "write" -> First(Frame(heap, ev, {ev.self}),
                                 WriteVerdict(heap[ev.self], ev.heap[ev.self], ev.a))
      [] ev.op = "given" -> FirstBad(Len(ev.out), LAMBDA i : FormVerdict(ev.heap[ev.out[i]]))
      [] OTHER -> "unknown-event"

(* Calls about which nothing is promised (but they must not touch other    *)
(* objects).                                                               *)
Unspecified(heap, ev) ==
    IF ev.op \in CadOps
    THEN \E i \in 1..Len(ev.a.objs) :
            LET o == heap[ev.a.objs[i]] IN ~WellFormed(o) \/ WeightsVanish(o)
    ELSE /\ ev.self # "" /\ ev.self \in DOMAIN heap
         /\ "U" \in DOMAIN heap[ev.self]
         /\ \/ ~WellFormed(heap[ev.self])
            \/ ev.op \in PlotOps /\ WeightsVanish(heap[ev.self])
            \/ ev.op = "p_write" /\ heap[ev.self].nc > 4 /\ WeightsVanish(heap[ev.self])
LooseVerdict(heap, ev) ==
    IF \E n \in DOMAIN heap \ {ev.self} : n \in DOMAIN ev.heap /\ ev.heap[n] # heap[n]
    THEN "other-object-changed" ELSE ""

JudgeEvent(heap, ev) ==
    IF Unspecified(heap, ev) THEN LooseVerdict(heap, ev)
    ELSE IF ev.crash # "" THEN ev.crash
    ELSE IF ev.pre # ev.post THEN "caller-array-modified"
    ELSE LET st == Status(heap, ev)
         IN  IF ev.raised # "" THEN
                 (IF st = "must" THEN "refused-valid-call(" \o ev.raised \o ")"
                  ELSE IF ev.heap # heap THEN "failed-call-left-traces" ELSE "")
             ELSE IF st = "mustnot" THEN "accepted-invalid-call"
             ELSE IF ev.ret \notin {"self", "new", "none", "value"} THEN "wrong-kind-of-result"
             ELSE Effect(heap, ev)
=============================================================================
