------------------------------ MODULE MC_Basis ------------------------------
(***************************************************************************)
(* Every small spline space, its basis and its derivatives.                *)
(*                                                                         *)
(* The specification evaluates splines and their derivatives through       *)
(* blossoms (BSpline.tla).  Here this is checked, for every space with the *)
(* degrees, spans, multiplicities and ends asked for, against the          *)
(* Cox-de Boor recursion and the classical derivative recursion, together  *)
(* with the facts users rely on: the functions are nonnegative, sum to     *)
(* one, reproduce the identity with the Greville abscissae as              *)
(* coefficients, and have degree minus multiplicity continuous             *)
(* derivatives at a knot.                                                  *)
(* Every space is emitted, for the real kernels to be run on.              *)
(***************************************************************************)
EXTENDS Query, Small, Json

CONSTANTS Degrees, MaxSpans, Ends, Told
VARIABLES p, U
vars == <<p, U>>
view == vars

Tell == Emit(ToJson([p |-> p, U |-> [i \in 1..Len(U) |-> RStr(U[i])]]))
Init == /\ p \in Degrees
        /\ \E s \in SpacesOf({p}, 1..MaxSpans, Ends) : U = s.U
        /\ (Told => Tell)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Spans == NonEmptySpans(p, U)
At(k, i) == RAdd(Kn(U, k), RMul(RDiv(i, p+1), RSub(Kn(U, k+1), Kn(U, k))))   \* i in 0..p+1
CDB(k, u) == TLCEval([j \in 1..(p+1) |-> CoxDeBoor(p, U, k, k-p-1+j, u)])
(* N_i' = p/(U_{i+p}-U_i) N_{i,p-1} - p/(U_{i+p+1}-U_{i+1}) N_{i+1,p-1}     *)
RECURSIVE CDBDer(_, _, _, _, _)
CDBDer(q, k, i, u, d) ==
    IF d = 0 THEN CoxDeBoor(q, U, k, i, u)
    ELSE IF q = 0 THEN 0
    ELSE LET t(den, v) == IF REq(den, 0) THEN 0 ELSE RDiv(RMul(q, v), den)
         IN  RSub(t(RSub(Kn(U, i+q), Kn(U, i)), CDBDer(q-1, k, i, u, d-1)),
                  t(RSub(Kn(U, i+q+1), Kn(U, i+1)), CDBDer(q-1, k, i+1, u, d-1)))
ValidU == ValidSpace(p, U)
BlossomIsCoxDeBoor ==
    \A k \in Spans : \A i \in 0..(p+1) :
        LET u == At(k, i) IN RMismatch(DerRowAt(p, U, k, u, 0), CDB(k, u), 0) = 0
DerivativesAgree ==
    \A k \in Spans : \A i \in {0, 1} : \A d \in 1..(p+1) :
        LET u == At(k, i)
        IN  RMismatch(DerRowAt(p, U, k, u, d), TLCEval([j \in 1..(p+1) |-> CDBDer(p, k, k-p-1+j, u, d)]), 0) = 0
PartitionOfUnity ==
    \A k \in Spans : \A i \in 0..(p+1) :
        LET w == DerRowAt(p, U, k, At(k, i), 0)
        IN  REq(RSum(w), 1) /\ \A j \in 1..(p+1) : RLe(0, w[j])
GrevilleIdentity ==
    LET g == GrevilleSeq(p, U)
    IN  \A k \in Spans : \A i \in 0..p :
            REq(RGather(DerRowAt(p, U, k, At(k, i), 0), g, k-p+1, 1), At(k, i))
(* the pieces on both sides of a knot agree in as many derivatives as the  *)
(* multiplicity leaves, and not in one more                                *)
FullRow(k, u, d) == LET w == DerRowAt(p, U, k, u, d)
                    IN  TLCEval([i \in 1..NumCP(p, U) |-> IF i-1 >= k-p /\ i-1 <= k THEN w[i-1-(k-p)+1] ELSE 0])
Continuity ==
    \A k \in Spans : \A l \in Spans :
        (k < l /\ \A h \in Spans : ~(k < h /\ h < l)) =>
            LET u == Kn(U, l)
                m == CountEq(U, u)
            IN  /\ \A d \in 0..(p-m) : RMismatch(FullRow(k, u, d), FullRow(l, u, d), 0) = 0
                /\ RMismatch(FullRow(k, u, p-m+1), FullRow(l, u, p-m+1), 0) # 0
(* the parameter belongs to exactly the span the specification names       *)
SpanRight ==
    \A k \in Spans : /\ Span(p, U, At(k, 0)) = k /\ Span(p, U, At(k, 1)) = k
                     /\ (k = LastSpan(p, U) => Span(p, U, At(k, p+1)) = k)
=============================================================================
