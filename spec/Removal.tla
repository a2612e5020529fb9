------------------------------ MODULE Removal ------------------------------
(***************************************************************************)
(* Knot removal.  It may leave any number t of the requested copies in     *)
(* place, but                                                              *)
(*  - what it removes must not move the object by more than the deviation  *)
(*    allowed per removal, and                                             *)
(*  - a copy whose removal does not change the function at all (it was     *)
(*    inserted, say) must go.                                              *)
(* Removal at the ends of the domain never does anything.                  *)
(***************************************************************************)
EXTENDS Session, Verdict

AtEnds(o, a, u) == RLe(u, Lo(o.p[a], o.U[a])) \/ RLe(Hi(o.p[a], o.U[a]), u)
RemovableMax(o, a, c) == IF AtEnds(o, a, c.a.value) THEN 0 ELSE TimesRemove(o, a, c)

(* largest difference between the net of o and the net of q written in o's *)
(* space along axis a                                                      *)
BackDiff(o, q, a) ==                \* where control points matter
    LET b == InSpace(q, a, o.p[a], o.U[a])
        B == LiveNet(o, b.A)  A == LiveNet(o, o.A)
    IN  RMaxAbs([i \in 1..Len(A) |-> RSub(B[i], A[i])])
RemovedObj(o, a, u, t) == InSpace(o, a, o.p[a], RemoveTimes(o.U[a], u, t))
ExactlyRemovable(o, a, u, t) ==     \* everywhere, up to the last bits of the coordinates
    LET b == InSpace(RemovedObj(o, a, u, t), a, o.p[a], o.U[a])
    IN  RLe(RMaxAbs([i \in 1..Len(o.A) |-> RSub(b.A[i], o.A[i])]),
            RMul("1/500000000000000", RMaxAbs(o.A)))

(* p+1 parameters inside every span                                        *)
SpanSamples(p, U) ==
    LET b == Breaks(p, U)
    IN  TLCEval([i1 \in 1..((Len(b)-1)*(p+1)) |->
            LET e == (i1-1) \div (p+1) + 1  k == ((i1-1) % (p+1)) + 1
            IN  RAdd(b[e], RMul(RSub(b[e+1], b[e]), RDiv(k, p+2)))])
MovedBy(o, q) ==                    \* largest distance seen in any projected component
    LET us == [a \in Axes(o) |-> SpanSamples(o.p[a], o.U[a])]
        g == Grid(o, us, NoDer(o))  h == Grid(q, us, NoDer(o))
        P == ProjectFrom(g.A, g.nc, 1, 3, 4)  Q == ProjectFrom(h.A, h.nc, 1, 3, 4)
    IN  RMaxAbs([i \in 1..Len(P) |-> RSub(P[i], Q[i])])

RemoveVerdict(o, q, c) ==           \* o before, q after
    LET a == AxisOf(o, c.a.axis)
        u == c.a.value
        tmax == RemovableMax(o, a, c)
        t == Len(o.U[a]) - Len(q.U[a])
        exp == [o EXCEPT !.U = Put(o.U, a, RemoveTimes(o.U[a], u, t)),
                         !.sh = Put(o.sh, a, o.sh[a] - t)]
        dev == c.a.deviation
    IN  IF q.p # o.p THEN "degree"
        ELSE IF Len(q.U) # Len(o.U) THEN "dimension"
        ELSE IF t < 0 \/ t > tmax THEN "removed-count"
        ELSE IF t = 0 THEN
            (IF ObjVerdict(q, o, FALSE, 0) # "" THEN ObjVerdict(q, o, FALSE, 0)
             ELSE IF tmax > 0 /\ ~RLt(dev, "1/10000000000") /\ ExactlyRemovable(o, a, u, 1)
                  THEN "removable-knot-kept" ELSE "")
        ELSE IF q.sh # exp.sh \/ q.nc # exp.nc THEN "shape"
        ELSE LET k == FirstBad(Len(exp.U), LAMBDA b : KnotVerdict(exp.p[b], q.U[b], exp.U[b], FALSE))
                 f == FormVerdict(q)
             IN  IF k # "" THEN k
        ELSE IF f # "" THEN f
        ELSE IF RLt(RAdd(RMul(RMul(100*t, RMax(1, RMaxAbs(Weights(o)))), dev),
                         RMul(NetTol, RMaxAbs(o.A))), BackDiff(o, q, a))
             THEN "net-beyond-deviation"
        ELSE IF RLt(RAdd(RMul(t, dev), RMul(NetTol, RMaxAbs(o.A))), MovedBy(o, q))
             THEN "moved-beyond-deviation"
        ELSE IF t < tmax /\ ~RLt(dev, "1/10000000000") /\ ExactlyRemovable(o, a, u, t+1)
             THEN "removable-knot-kept"
        ELSE ""
=============================================================================
