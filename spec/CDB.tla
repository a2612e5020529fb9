-------------------------------- MODULE CDB --------------------------------
(***************************************************************************)
(* Evaluation by the Cox-de Boor recursion: independent of the blossoms    *)
(* everything else is defined by.  Used by the models, not by the judge.   *)
(***************************************************************************)
EXTENDS Nurbs
CDBRow(p, U, u) == LET k == Span(p, U, u)
                   IN  SRow(k-p, TLCEval([j \in 1..(p+1) |-> CoxDeBoor(p, U, k, k-p-1+j, u)]))
RECURSIVE CDBRec(_, _, _, _)
CDBRec(q, us, a, acc) ==
    IF a > Dim(q) THEN acc
    ELSE LET rows == TLCEval([i \in 1..Len(us[a]) |-> CDBRow(q.p[a], q.U[a], us[a][i])])
         IN  CDBRec(q, us, a+1, [sh |-> Put(acc.sh, a, Len(us[a])),
                                 A |-> MapAxis(acc.A, acc.sh, acc.nc, a, rows), nc |-> acc.nc])
CDBGrid(q, us) == CDBRec(q, us, 1, [sh |-> q.sh, A |-> q.A, nc |-> q.nc])
=============================================================================
