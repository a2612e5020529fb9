----------------------------- MODULE Construct -----------------------------
(***************************************************************************)
(* NURBS(knots, control, fields, weights): which arguments make an object, *)
(* and which object they make.                                             *)
(*                                                                         *)
(* a.knots is a sequence of knot sequences; a.control, a.weights, a.fields *)
(* are <<>> (not given) or <<[sh |-> shape, A |-> entries row major]>>.    *)
(***************************************************************************)
EXTENDS Session, Verdict

(* leading knots equal to the first one, minus one                         *)
LeadDegree(U) ==
    LET same == {i \in 1..Len(U) : \A j \in 1..i : REq(U[j], U[1])}
    IN  Cardinality(same) - 1
Has(x) == Len(x) = 1

ConStructure(a) ==                  \* counts and shapes are consistent
    /\ Len(a.knots) \in 1..3
    /\ \A i \in 1..Len(a.knots) : Len(a.knots[i]) >= 4
    /\ IF ~Has(a.control) THEN ~Has(a.weights)
       ELSE LET sh == a.control[1].sh  k == Len(sh)
            IN  /\ k = Len(a.knots) + 1
                /\ sh[k] \in 2..4
                /\ Has(a.weights) => sh[k] < 4 /\ a.weights[1].sh = SubSeq(sh, 1, k-1)
                /\ \A i \in 1..(k-1) : Len(a.knots[i]) - sh[i] - 1 >= 1
ConDegrees(a) ==
    IF Has(a.control) THEN [i \in 1..Len(a.knots) |-> Len(a.knots[i]) - a.control[1].sh[i] - 1]
    ELSE [i \in 1..Len(a.knots) |-> LeadDegree(a.knots[i])]
ConShape(a) ==
    LET p == ConDegrees(a) IN [i \in 1..Len(p) |-> NumCP(p[i], a.knots[i])]
ConFieldsOK(a) ==
    ~Has(a.fields) \/ LET f == a.fields[1].sh  s == ConShape(a)
                      IN  f = s \/ (Len(f) = Len(s) + 1 /\ SubSeq(f, 1, Len(s)) = s)
(* Knots that denote a space (otherwise nothing is promised)               *)
ConMeaning(a) ==
    /\ \A i \in 1..Len(a.knots) : /\ RAllFinite(a.knots[i])
                                  /\ ConDegrees(a)[i] >= 1
                                  /\ ValidSpace(ConDegrees(a)[i], a.knots[i])
    /\ Has(a.weights) => \A i \in 1..Len(a.weights[1].A) : ~REq(a.weights[1].A[i], 0)
    /\ Has(a.fields) => Len(a.fields[1].A) > 0
ConStatus(a) ==
    IF ~ConStructure(a) THEN "mustnot"
    ELSE IF Has(a.control) /\ ~ConFieldsOK(a) THEN "mustnot"
    ELSE IF ~ConMeaning(a) THEN "any"
    ELSE IF ~ConFieldsOK(a) THEN "mustnot"
    ELSE "must"

(* homogeneous coordinate c of control point i (0-based, row major)        *)
ConHomog(a, i, c) ==
    LET C == a.control[1]  s == C.sh[Len(C.sh)]
        w == IF Has(a.weights) THEN a.weights[1].A[i+1]
             ELSE IF s = 4 THEN C.A[i*4 + 4] ELSE 1
    IN  IF c = 4 THEN w
        ELSE IF c > s THEN 0
        ELSE IF s = 4 THEN C.A[i*4 + c] ELSE RMul(w, C.A[i*s + c])
(* no control points: the identity map of the parameter box                *)
ConIdent(a, p, sh, i, c) ==
    IF c = 4 THEN 1 ELSE IF c > Len(sh) THEN 0
    ELSE GrevilleSeq(p[c], a.knots[c])[((i \div Strides(sh)[c]) % sh[c]) + 1]
ConResult(a) ==
    LET p == ConDegrees(a)  sh == ConShape(a)  n == Prod(sh)
        F == IF Has(a.fields) THEN a.fields[1].sh ELSE <<>>
        nf == IF ~Has(a.fields) THEN 0 ELSE IF Len(F) = Len(sh) THEN 1 ELSE F[Len(F)]
        h(i, c) == IF Has(a.control) THEN ConHomog(a, i, c) ELSE ConIdent(a, p, sh, i, c)
    IN  [p |-> p, U |-> a.knots, sh |-> sh, nc |-> 4 + nf,
         A |-> TLCEval([x1 \in 1..(n*(4+nf)) |->
                LET i == (x1-1) \div (4+nf)  c == ((x1-1) % (4+nf)) + 1
                IN  IF c <= 4 THEN h(i, c)
                    ELSE RMul(a.fields[1].A[i*nf + (c-4)], h(i, 4))])]
ConVerdict(heap, ev) ==
    IF ConStatus(ev.a) # "must" THEN ""
    ELSE LET e == ConResult(ev.a) IN ObjVerdict(ev.heap[ev.out[1]], e, FALSE, 0)

(* Writing into the buffers of an object that shares nothing.              *)
WriteResult(o, a) ==
    IF a.where = "knots" THEN [o EXCEPT !.U[a.axis][a.index] = RAdd(@, a.delta)]
    ELSE [o EXCEPT !.A[a.index] = RAdd(@, a.delta)]
WriteVerdict(old, new, a) ==
    LET e == WriteResult(old, a)
    IN  IF new.p # e.p \/ new.sh # e.sh \/ new.nc # e.nc THEN "shape"
        ELSE FirstBad(Len(e.U), LAMBDA i : IF RMismatch(new.U[i], e.U[i], RMul(KnotTol, KnotScale(e.U[i]))) # 0
                                          THEN "write-knots" ELSE "")
             \o (IF RMismatch(new.A, e.A, RMul(NetTol, RMaxAbs(e.A))) # 0 THEN "write-net" ELSE "")
=============================================================================
