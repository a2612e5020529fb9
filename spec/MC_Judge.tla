------------------------------ MODULE MC_Judge ------------------------------
(***************************************************************************)
(* The judge judged.  From every small object and every call of MC_Spline, *)
(* the event an ideal implementation would leave is accepted by            *)
(* Judge!JudgeEvent, and every event that differs from it in one thing -   *)
(* one number of the net, one knot, one object that should have been left  *)
(* alone, the kind of result, a refusal turned acceptance or the reverse - *)
(* is not.  So the trace checks neither reject right code nor pass by      *)
(* being vacuous.                                                          *)
(***************************************************************************)
EXTENDS MC_Spline
J == INSTANCE Judge

Str(q) == [p |-> q.p, U |-> [b \in 1..Len(q.U) |-> Strs(q.U[b])], sh |-> q.sh, nc |-> q.nc, A |-> Strs(q.A)]
Heap == [n \in {"x", "y"} |-> Str(o)]
News == {"slice", "extract", "boundary"}
Event(c, hp, out, ret) ==
    [op |-> c.op, self |-> "x", out |-> out, a |-> WithAxis(c).a, pre |-> <<>>, post |-> <<>>,
     crash |-> "", raised |-> "", ret |-> ret, heap |-> hp, val |-> [none |-> 0]]
Ideal(c, q) ==
    IF c.op \in News THEN Event(c, ("z" :> q) @@ Heap, <<"z">>, "new")
    ELSE Event(c, [Heap EXCEPT !["x"] = q], <<>>, "self")
No(c) == [Event(c, Heap, <<>>, "") EXCEPT !.raised = "ValueError"]

Good(ev) == J!JudgeEvent(Heap, ev) = ""
Bad(ev) == J!JudgeEvent(Heap, ev) # ""
Nudge(v) == RStr(RAdd(v, "1/1000"))
(* one changed thing in the object the call produced; points without       *)
(* influence on the domain (beside empty end spans) do not matter          *)
Seen(q) == CDBGrid(q, [b \in 1..Dim(q) |-> SpanSamples(q.p[b], q.U[b])]).A
NetMutants(q) ==
    LET g == TLCEval(Seen(q))
    IN  {m \in {[q EXCEPT !.A[i] = Nudge(@)] : i \in {k \in 1..Len(q.A) : k % 3 = 1 \/ Len(q.A) < 30}} :
            RMismatch(g, Seen(m), 0) # 0}
FormMutants(q) == IF Len(q.p) = 0 THEN {} ELSE
                  {[q EXCEPT !.p[1] = @ + 1], [q EXCEPT !.A = SubSeq(@, 1, Len(@) - q.nc)],
                   [q EXCEPT !.A[1] = "nan"], [q EXCEPT !.U[1] = Append(@, @[Len(@)])],
                   [q EXCEPT !.sh[1] = @ - 1]}
Mutants(c, q) ==
    {Ideal(c, m) : m \in NetMutants(q)} \cup {Ideal(c, m) : m \in FormMutants(q)}
    \cup {Ideal(c, [q EXCEPT !.U[b][i] = Nudge(@)]) : <<b, i>> \in {<<b, i>> \in (1..Len(q.U)) \X (1..40) : i <= Len(q.U[b])}}
    \cup {[Ideal(c, q) EXCEPT !.ret = r] : r \in {"self", "new", "none", "other"} \ {Ideal(c, q).ret}}
    \cup {[Ideal(c, q) EXCEPT !.heap["y"].A[1] = Nudge(@)], [Ideal(c, q) EXCEPT !.crash = "process-crashed"],
          [Ideal(c, q) EXCEPT !.post = <<"changed">>], No(c),
          [Ideal(c, q) EXCEPT !.heap = @ @@ ("w" :> q)]}
    \cup (IF c.op \in News THEN {[Ideal(c, q) EXCEPT !.heap["x"].A[1] = Nudge(@)], [Ideal(c, q) EXCEPT !.heap = Heap]}
          ELSE IF q = Str(o) THEN {} ELSE {Ideal(c, Str(o))})
(* of a call that must be refused *)
WrongAfterAll(c) ==
    {Event(c, Heap, <<>>, IF c.op \in News THEN "new" ELSE "self"), [No(c) EXCEPT !.heap["x"].A[1] = Nudge(@)],
     [No(c) EXCEPT !.heap["y"].U[1][1] = Nudge(@)], [No(c) EXCEPT !.crash = "timed-out"]}

Calls == IF Dim(o) = 0 THEN <<>> ELSE AllCalls(1)
Accepting ==
    \A i \in 1..Len(Calls) : \A c \in Calls[i] :
        IF Allowed(c) = TRUE THEN Good(Ideal(c, Str(After(c)))) ELSE Good(No(c))
Rejecting ==
    \A i \in 1..Len(Calls) : \A c \in Calls[i] :
        IF Allowed(c) = TRUE THEN LET q == TLCEval(Str(After(c))) IN \A ev \in Mutants(c, q) : Bad(ev)
        ELSE \A ev \in WrongAfterAll(c) : Bad(ev)

(* Evaluation, the ideal values coming from the Cox-de Boor recursion.     *)
ValA(g, lo, hi) == LET w(i) == g.A[i * g.nc + 4]
                       n == Len(g.A) \div g.nc
                       k == hi - lo + 1
                   IN  TLCEval([x \in 1..(n*k) |-> RStr(RDiv(g.A[((x-1) \div k) * g.nc + lo + ((x-1) % k)], w((x-1) \div k)))])
AtSamples(f) == [op |-> "call", self |-> "x", out |-> <<>>, pre |-> <<>>, post |-> <<>>, crash |-> "", raised |-> "", ret |-> "value",
                 heap |-> Heap, val |-> <<>>,
                 a |-> [u |-> [b \in 1..Dim(o) |-> <<[nd |-> 1, x |-> Strs(Samples[b])]>>], fields |-> f]]
(* weights that never vanish *)
Plain == [o EXCEPT !.A = TLCEval([i \in 1..Len(o.A) |-> IF ((i-1) % o.nc) + 1 = 4 THEN (IF i % 3 = 0 THEN 2 ELSE 1) ELSE @[i]])]
Evaluated ==
    (Dim(o) > 0 /\ Len(path) = 0) =>
    LET hp == [n \in {"x", "y"} |-> Str(Plain)]
        g == TLCEval(CDBGrid(Plain, Samples))
        sh == [b \in 1..Dim(o) |-> Len(Samples[b])]
        P == [sh |-> sh \o <<3>>, A |-> ValA(g, 1, 3)]
        F == [sh |-> sh \o <<o.nc - 4>>, A |-> ValA(g, 5, o.nc)]
        ev == [AtSamples("own") EXCEPT !.heap = hp, !.val = <<P, F>>]
        ok(e) == J!JudgeEvent(hp, e) = ""
    IN  /\ ok(ev) /\ ok([AtSamples("no") EXCEPT !.heap = hp, !.val = <<P>>])
        /\ \A i \in 1..Len(P.A) : ~ok([ev EXCEPT !.val[1].A[i] = Nudge(@)])
        /\ \A i \in 1..Len(F.A) : ~ok([ev EXCEPT !.val[2].A[i] = Nudge(@)])
        /\ ~ok([ev EXCEPT !.val = <<P>>]) /\ ~ok([ev EXCEPT !.val[1].sh = Append(@, 1)])
        /\ ~ok([ev EXCEPT !.val[1].A[1] = "nan"]) /\ ~ok([ev EXCEPT !.raised = "ValueError"])
        /\ ~ok([ev EXCEPT !.heap["x"].A[1] = Nudge(@)])
        \* a little rounding is not held against it
        /\ ok([ev EXCEPT !.val[1].A[1] = RStr(RAdd(@, "1/1000000000000"))])
=============================================================================
