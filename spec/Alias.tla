------------------------------- MODULE Alias -------------------------------
(***************************************************************************)
(* Which objects of a session share their data.                            *)
(*                                                                         *)
(* A clone shares the net and the knot vectors of its original; a copy     *)
(* shares nothing; slice, extract and boundary make a new net but may      *)
(* share knot vectors.  An operation gives the object it works on new      *)
(* data, so what has changed is not shared any more.  kin.net[x, y] and    *)
(* kin.knt[x, y] say what can be told: "same" (a number written into one   *)
(* is seen in the other), "apart" (it is not) or "may".                    *)
(***************************************************************************)
EXTENDS Construct

NoKin == [net |-> <<>>, knt |-> <<>>]   \* of no objects
Pairs(S) == {t \in S \X S : t[1] # t[2]}
IsGeometry(h, n) == n # "root" /\ "U" \in DOMAIN h[n]
Geometries(h) == {n \in DOMAIN h : IsGeometry(h, n)}
Rel(R, a, b) == IF <<a, b>> \in DOMAIN R THEN R[<<a, b>>] ELSE "apart"

Made(ev) == IF ev.raised = "" THEN {ev.out[i] : i \in 1..Len(ev.out)} ELSE {}
NetChanged(h, ev, n) == LET x == h[n]  y == ev.heap[n] IN x.A # y.A \/ x.sh # y.sh \/ x.nc # y.nc
KntChanged(h, ev, n) == h[n].U # ev.heap[n].U

(* b is an object made by the call, o one that was there before            *)
BornNet(kin, ev, o) ==
    CASE ev.op = "clone" -> IF o = ev.self THEN "same" ELSE Rel(kin.net, ev.self, o)
      [] ev.op \in {"copy", "slice", "extract", "boundary", "new", "given", "c_read"} -> "apart"
      [] OTHER -> "may"
BornKnt(kin, ev, o) ==
    CASE ev.op = "clone" -> IF o = ev.self THEN "same" ELSE Rel(kin.knt, ev.self, o)
      [] ev.op \in {"copy", "new", "given", "c_read"} -> "apart"
      [] OTHER -> "may"
(* both were there; the call may have replaced the data of self            *)
Kept(r, x, ev, changed) ==
    IF ev.self # x \/ ev.op = "write" \/ r = "apart" THEN r
    ELSE IF changed THEN "apart" ELSE "may"

NextKin(kin, h, ev) ==
    LET N == Geometries(ev.heap)
        new == Made(ev)
        queries == ev.ret = "value" \/ ev.raised # ""
        chN(n) == n \in DOMAIN h /\ IsGeometry(h, n) /\ NetChanged(h, ev, n)
        chK(n) == n \in DOMAIN h /\ IsGeometry(h, n) /\ KntChanged(h, ev, n)
        net(t) == IF queries THEN Rel(kin.net, t[1], t[2])
                  ELSE IF t[1] \in new /\ t[2] \in new THEN "may"
                  ELSE IF t[1] \in new THEN BornNet(kin, ev, t[2])
                  ELSE IF t[2] \in new THEN BornNet(kin, ev, t[1])
                  ELSE Kept(Kept(Rel(kin.net, t[1], t[2]), t[1], ev, chN(t[1])), t[2], ev, chN(t[2]))
        knt(t) == IF queries THEN Rel(kin.knt, t[1], t[2])
                  ELSE IF t[1] \in new /\ t[2] \in new THEN "may"
                  ELSE IF t[1] \in new THEN BornKnt(kin, ev, t[2])
                  ELSE IF t[2] \in new THEN BornKnt(kin, ev, t[1])
                  ELSE LET k(x) == \* one vector may be replaced, another kept
                              IF chK(x) /\ Len(ev.heap[x].U) > 1 THEN FALSE ELSE chK(x)
                       IN  Kept(Kept(Rel(kin.knt, t[1], t[2]), t[1], ev, k(t[1])), t[2], ev, k(t[2]))
    IN  [net |-> [t \in Pairs(N) |-> net(t)], knt |-> [t \in Pairs(N) |-> knt(t)]]

(* a number written into the net or a knot vector of self                  *)
WriteEffect(kin, h, ev) ==
    LET R == IF ev.a.where = "knots" THEN kin.knt ELSE kin.net
        bad(n) ==
            LET same == ev.heap[n] = h[n]
                hit == WriteVerdict(h[n], ev.heap[n], ev.a) = ""
            IN  IF n = ev.self THEN ~hit
                ELSE IF ~IsGeometry(h, n) THEN ~same
                ELSE CASE Rel(R, ev.self, n) = "apart" -> ~same
                       [] Rel(R, ev.self, n) = "same" -> ~hit
                       [] OTHER -> FALSE
    IN  IF DOMAIN ev.heap # DOMAIN h THEN "objects-appeared-or-vanished"
        ELSE IF bad(ev.self) THEN WriteVerdict(h[ev.self], ev.heap[ev.self], ev.a)
        ELSE IF \E n \in DOMAIN h : bad(n) /\ Rel(R, ev.self, n) = "apart" THEN "write-reaches-other-object"
        ELSE IF \E n \in DOMAIN h : bad(n) THEN "write-not-shared-with-clone"
        ELSE ""
=============================================================================
