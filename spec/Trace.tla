------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation: every recorded execution of the real code must be a   *)
(* behaviour of the specification.  The file named by TRACE holds one      *)
(* recorded session per line: [id |-> ..., ev |-> <<events>>].  Each       *)
(* session is explored from its own initial state; every event gets a      *)
(* total verdict, and after an accepted event the specification continues  *)
(* from the observed (accepted) heap.                                      *)
(***************************************************************************)
EXTENDS Judge, Alias, Json, IOUtils

Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
NT == Len(Traces)

VARIABLES tid, l, heap, kin
vars == <<tid, l, heap, kin>>
View == <<tid, l>>

Init == tid \in 1..NT /\ l = 1 /\ heap = EmptyHeap /\ kin = NoKin

Ev == Traces[tid].ev[l]
(* Deviations the specification names: reported, and the session goes on. *)
KnownDeviations == {"known-curve-fourth-derivative"}
Line(kind, what) == kind \o " " \o Traces[tid].id \o " " \o ToString(l) \o " " \o what

Step ==
    /\ l <= Len(Traces[tid].ev)
    /\ LET v == IF Ev.op = "write" /\ Ev.raised = "" THEN WriteEffect(kin, heap, Ev) ELSE JudgeEvent(heap, Ev)
       IN  IF v = "" \/ v \in KnownDeviations
           THEN /\ IF v # "" THEN Emit(Line("KNOWN", Ev.op \o ":" \o v)) ELSE TRUE
                /\ l' = l + 1
                /\ heap' = NextHeap(heap, Ev)
                /\ kin' = NextKin(kin, heap, Ev)
                /\ IF l = Len(Traces[tid].ev) THEN Emit(Line("DONE", "")) ELSE TRUE
           ELSE /\ Emit(Line("FAIL", Ev.op \o ":" \o v))
                /\ l' = Len(Traces[tid].ev) + 1
                /\ heap' = heap /\ kin' = kin
    /\ tid' = tid
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
