------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A session: named NURBS objects and the calls made on them.              *)
(*                                                                         *)
(* heap maps names to Nurbs values.  For every modelling call c this       *)
(* module gives                                                            *)
(*    Pre(heap, c)   when the call must be accepted (otherwise it must     *)
(*                   raise and leave every object as it was), and          *)
(*    Result(heap,c) the value the receiver (in-place calls) or the new    *)
(*                   object (slice, extract, boundary, copy, clone) takes. *)
(* A call record c has c.op, c.self and the arguments c.a; an optional      *)
(* argument is <<>> (Python's None, or left out) or <<value>>.             *)
(***************************************************************************)
EXTENDS Nurbs

IsNull(x) == Len(x) = 0

InPlaceOps == {"insert", "remove", "refine", "elevate", "clamp", "unclamp",
               "transpose", "swap", "reverse", "remap"}
NewObjOps  == {"slice", "extract", "boundary", "copy", "clone"}

TimesInsert(o, a, c) ==
    IF IsNull(c.a.times) THEN o.p[a] - Mult(o.p[a], o.U[a], c.a.value) ELSE c.a.times[1]
TimesRemove(o, a, c) ==
    LET m == Mult(o.p[a], o.U[a], c.a.value)
    IN  IF IsNull(c.a.times) THEN m ELSE IF c.a.times[1] < m THEN c.a.times[1] ELSE m

RefineOK(p, U, us) ==
    /\ \A i \in 1..Len(us) : InDomain(p, U, us[i])
    /\ LET all == us \o SubSeq(U, 2, Len(U)-1)
       IN  \A i \in 1..Len(us) : CountEq(all, us[i]) <= p
SidesOK(c) == IsNull(c.a.side) \/ c.a.side[1] \in {0, 1}
SideL(c) == IsNull(c.a.side) \/ c.a.side[1] = 0
SideR(c) == IsNull(c.a.side) \/ c.a.side[1] = 1
SliceLo(o, a, c) == IF IsNull(c.a.start) THEN Lo(o.p[a], o.U[a]) ELSE c.a.start[1]
SliceHi(o, a, c) == IF IsNull(c.a.end) THEN Hi(o.p[a], o.U[a]) ELSE c.a.end[1]
IsPerm(s, d) == Len(s) = d /\ {s[i] : i \in 1..d} = 1..d
TransposePerm(o, c) ==
    IF IsNull(c.a.axes) THEN [i \in Axes(o) |-> Dim(o) + 1 - i]
    ELSE [i \in 1..Len(c.a.axes[1]) |-> AxisOf(o, c.a.axes[1][i])]
ReverseAxes(o, c) ==
    IF Len(c.a.axes) = 0 THEN [i \in Axes(o) |-> i]
    ELSE [i \in 1..Len(c.a.axes) |-> AxisOf(o, c.a.axes[i])]
BoundaryValue(o, a, c) ==
    IF c.a.side = 0 THEN Lo(o.p[a], o.U[a]) ELSE Hi(o.p[a], o.U[a])

Pre(heap, c) ==
    LET o == heap[c.self]
        a == AxisOf(o, c.a.axis)
    IN  CASE c.op \in {"copy", "clone"} -> TRUE
          [] c.op = "insert" ->
                /\ a # 0 /\ InDomain(o.p[a], o.U[a], c.a.value)
                /\ TimesInsert(o, a, c) >= 0
                /\ TimesInsert(o, a, c) + Mult(o.p[a], o.U[a], c.a.value) <= o.p[a]
          [] c.op = "remove" ->
                /\ a # 0 /\ InDomain(o.p[a], o.U[a], c.a.value)
                /\ TimesRemove(o, a, c) >= 0
          [] c.op = "refine" ->
                \/ IsNull(c.a.values) \/ Len(c.a.values[1]) = 0
                \/ a # 0 /\ RefineOK(o.p[a], o.U[a], c.a.values[1])
          [] c.op = "elevate" ->
                \/ IsNull(c.a.times) \/ c.a.times[1] = 0
                \/ c.a.times[1] > 0 /\ a # 0
          [] c.op = "clamp" -> a # 0 /\ SidesOK(c)
          [] c.op = "unclamp" ->
                /\ a # 0 /\ SidesOK(c)
                /\ IsNull(c.a.continuity) \/ c.a.continuity[1] \in 0..(o.p[a]-1)
          [] c.op = "slice" ->
                /\ a # 0
                /\ RLe(Lo(o.p[a], o.U[a]), SliceLo(o, a, c))
                /\ RLe(SliceHi(o, a, c), Hi(o.p[a], o.U[a]))
                /\ RLt(SliceLo(o, a, c), SliceHi(o, a, c))
          [] c.op = "extract" -> a # 0 /\ InDomain(o.p[a], o.U[a], c.a.value)
          [] c.op = "boundary" -> a # 0 /\ c.a.side \in {0, 1}
          [] c.op = "transpose" -> IsPerm(TransposePerm(o, c), Dim(o))
          [] c.op = "swap" -> AxisOf(o, c.a.axis1) # 0 /\ AxisOf(o, c.a.axis2) # 0
          [] c.op = "reverse" -> \A i \in 1..Len(ReverseAxes(o, c)) : ReverseAxes(o, c)[i] # 0
          [] c.op = "remap" ->
                /\ a # 0
                /\ RLt(IF IsNull(c.a.start) THEN Lo(o.p[a], o.U[a]) ELSE c.a.start[1],
                       IF IsNull(c.a.end) THEN Hi(o.p[a], o.U[a]) ELSE c.a.end[1])

(* "remove" has no single result: see Removal.tla.                         *)
Result(heap, c) ==
    LET o == heap[c.self]
        a == AxisOf(o, c.a.axis)
    IN  CASE c.op \in {"copy", "clone"} -> o
          [] c.op = "insert" ->
                IF TimesInsert(o, a, c) = 0 THEN o ELSE Insert(o, a, c.a.value, TimesInsert(o, a, c))
          [] c.op = "refine" ->
                IF IsNull(c.a.values) \/ Len(c.a.values[1]) = 0 THEN o ELSE Refine(o, a, c.a.values[1])
          [] c.op = "elevate" ->
                IF IsNull(c.a.times) \/ c.a.times[1] = 0 THEN o ELSE Elevate(o, a, c.a.times[1])
          [] c.op = "clamp" -> Clamp(o, a, SideL(c), SideR(c))
          [] c.op = "unclamp" ->
                Unclamp(o, a, IF IsNull(c.a.continuity) THEN o.p[a]-1 ELSE c.a.continuity[1],
                        SideL(c), SideR(c))
          [] c.op = "slice" -> Slice(o, a, SliceLo(o, a, c), SliceHi(o, a, c))
          [] c.op = "extract" -> Extract(o, a, c.a.value)
          [] c.op = "boundary" -> Extract(o, a, BoundaryValue(o, a, c))
          [] c.op = "transpose" -> Transpose(o, TransposePerm(o, c))
          [] c.op = "swap" ->
                LET x == AxisOf(o, c.a.axis1)  y == AxisOf(o, c.a.axis2)
                IN  Transpose(o, [i \in Axes(o) |-> IF i = x THEN y ELSE IF i = y THEN x ELSE i])
          [] c.op = "reverse" -> EvenReverse(o, ReverseAxes(o, c))
          [] c.op = "remap" ->
                Remap(o, a, IF IsNull(c.a.start) THEN Lo(o.p[a], o.U[a]) ELSE c.a.start[1],
                            IF IsNull(c.a.end) THEN Hi(o.p[a], o.U[a]) ELSE c.a.end[1])

(* Knots of these results are computed, not copied: they may carry         *)
(* rounding (but never at the ends of the domain).                         *)
RoundedKnots(c) == c.op \in {"unclamp", "reverse", "remap"}
=============================================================================
