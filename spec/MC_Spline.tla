------------------------------ MODULE MC_Spline ------------------------------
(***************************************************************************)
(* The modelling calls as a state machine over exact NURBS values, explored *)
(* exhaustively from every small space.                                     *)
(*                                                                         *)
(* o      the object, o0 the object it was made from                       *)
(* src    where each parameter of o0 is now: fixed at a value, or an       *)
(*        affine function of one parameter of o                            *)
(* path   the calls made                                                    *)
(*                                                                         *)
(* Invariant Same: o is o0, reparametrized by src, on every span - decided *)
(* by the Cox-de Boor recursion at degree+1 points of every span, i.e. not *)
(* through the blossoms the operations are specified with.                 *)
(* Invariant Laws: the identities users rely on (insertions commute, what  *)
(* is inserted can be removed, elevations add up, ...).                    *)
(* Every transition is emitted, to be replayed on the real code.           *)
(***************************************************************************)
EXTENDS Removal, CDB, Small, Json
LOCAL INSTANCE FiniteSetsExt

CONSTANTS Degrees,      \* set of degrees
          MaxSpans,     \* spans per axis
          Ends,         \* "all" | "clamped" | "two"
          Dims,         \* 1 or 2 axes
          Ops,          \* the calls made
          Depth,        \* how many
          LawDepth,     \* laws are checked on states reached in at most so many calls
          Args          \* "few" | "many" argument values

VARIABLES o, o0, src, path, first
vars == <<o, o0, src, path, first>>
view == <<o, o0, src, Len(path)>>

----------------------------------------------------------------------------
(* Initial objects.                                                        *)
Spaces == SpacesOf(Degrees, 1..MaxSpans, Ends)

Max2(a, b) == IF a > b THEN a ELSE b
(* one axis: the net is the identity, so all basis functions are carried;  *)
(* two axes: arbitrary distinct numbers                                    *)
Obj1(s) == LET n == NumCP(s.p, s.U)  nc == Max2(4, n)
           IN  [p |-> <<s.p>>, U |-> <<s.U>>, sh |-> <<n>>, nc |-> nc,
                A |-> [x1 \in 1..(n*nc) |-> RNum(IF (x1-1) \div nc = (x1-1) % nc THEN 1 ELSE 0)]]
Obj2(s, t) == LET n == NumCP(s.p, s.U)  m == NumCP(t.p, t.U)
              IN  [p |-> <<s.p, t.p>>, U |-> <<s.U, t.U>>, sh |-> <<n, m>>, nc |-> 4,
                   A |-> [x \in 1..(n*m*4) |-> RNum(((7*x*x + 3*x) % 23) - 5)]]
Start == IF Dims = 1 THEN {Obj1(s) : s \in Spaces} ELSE {Obj2(s, t) : s \in Spaces, t \in Spaces}

Canon(q) == [q EXCEPT !.U = [a \in 1..Len(q.U) |-> [i \in 1..Len(q.U[a]) |-> RNum(q.U[a][i])]],
                      !.A = TLCEval([i \in 1..Len(q.A) |-> RNum(q.A[i])])]
----------------------------------------------------------------------------
(* Arguments worth trying, given the object.                               *)
Tok(x) == RStr(x)
Mid(b, i) == RDiv(RAdd(b[i], b[i+1]), 2)
Inside(a) ==                        \* inside the domain, ends included
    LET b == Breaks(o.p[a], o.U[a])
    IN  {Tok(b[i]) : i \in 1..Len(b)} \cup {Tok(Mid(b, i)) : i \in 1..(Len(b)-1)}
Strictly(a) == {u \in Inside(a) : RLt(Lo(o.p[a], o.U[a]), u) /\ RLt(u, Hi(o.p[a], o.U[a]))}
Beyond(a) == {Tok(RSub(Lo(o.p[a], o.U[a]), 1)), Tok(RAdd(Hi(o.p[a], o.U[a]), "1/8"))}
Many(S, T) == IF Args = "many" THEN S \cup T ELSE S
Cl(op, a) == [op |-> op, self |-> "x", a |-> a]
AxArg(a) == a - 1

(* sets of calls of one kind each (TLC cannot compare all of them)         *)
CallsOn(a) ==
    LET ax == AxArg(a)
    IN <<
      IF "insert" \notin Ops THEN {} ELSE
        {Cl("insert", [axis |-> ax, value |-> u, times |-> t]) :
            u \in Inside(a), t \in Many({<<1>>, <<2>>, <<>>}, {<<0>>, <<3>>})}
        \cup {Cl("insert", [axis |-> ax, value |-> u, times |-> <<1>>]) : u \in Beyond(a)},
      IF "remove" \notin Ops THEN {} ELSE
        {Cl("remove", [axis |-> ax, value |-> u, times |-> t, deviation |-> "1/1000000000"]) :
            u \in Inside(a), t \in Many({<<1>>, <<>>}, {<<0>>, <<2>>})},
      IF "refine" \notin Ops THEN {} ELSE
        {Cl("refine", [axis |-> ax, values |-> <<<<u, v>>>>]) : u \in Inside(a), v \in Many(Strictly(a), Inside(a))},
      IF "refine" \notin Ops THEN {} ELSE {Cl("refine", [axis |-> ax, values |-> <<<<>>>>])},
      IF "elevate" \notin Ops THEN {} ELSE
        {Cl("elevate", [axis |-> ax, times |-> t]) : t \in Many({<<1>>, <<2>>}, {<<0>>, <<3>>})},
      IF "clamp" \notin Ops THEN {} ELSE
        {Cl("clamp", [axis |-> ax, side |-> s]) : s \in {<<>>, <<0>>, <<1>>}},
      IF "unclamp" \notin Ops THEN {} ELSE
        {Cl("unclamp", [axis |-> ax, side |-> s, continuity |-> k]) :
            s \in {<<>>, <<0>>, <<1>>}, k \in {<<>>} \cup {<<i>> : i \in 0..o.p[a]}},
      IF "slice" \notin Ops THEN {} ELSE
        {Cl("slice", [axis |-> ax, start |-> <<u>>, end |-> <<v>>]) : u \in Inside(a), v \in Inside(a)},
      IF "extract" \notin Ops THEN {} ELSE
        {Cl("extract", [axis |-> ax, value |-> u]) : u \in Inside(a) \cup Beyond(a)},
      IF "extract" \notin Ops THEN {} ELSE
        {Cl("boundary", [axis |-> ax, side |-> s]) : s \in {0, 1}},
      IF "reverse" \notin Ops THEN {} ELSE {Cl("reverse", [axes |-> <<ax>>])},
      IF "remap" \notin Ops THEN {} ELSE
        {Cl("remap", [axis |-> ax, start |-> s, end |-> e]) :
            s \in {<<>>, <<"-1">>, <<"1/2">>}, e \in {<<>>, <<"2">>, <<"0">>}} >>
Perms(d) == {s \in [1..d -> 0..(d-1)] : \A i, j \in 1..d : i # j => s[i] # s[j]}
CallsAny ==
    IF "transpose" \notin Ops THEN <<>> ELSE
      << {Cl("transpose", [axes |-> <<s>>]) : s \in Perms(Dim(o))},
         {Cl("transpose", [axes |-> <<>>])},
         {Cl("swap", [axis1 |-> i-1, axis2 |-> j-1]) : i \in Axes(o), j \in Axes(o)},
         {Cl("reverse", [axes |-> <<>>])} >>
RECURSIVE AllCalls(_)
AllCalls(a) == IF a > Dim(o) THEN CallsAny ELSE CallsOn(a) \o AllCalls(a+1)

(* Session.tla reads the axis of a call for all of them *)
WithAxis(c) == IF "axis" \in DOMAIN c.a THEN c
               ELSE [c EXCEPT !.a = [axis |-> 0] @@ c.a]
RemoveResult(c) ==                  \* takes away what can go without changing the function
    LET a == AxisOf(o, c.a.axis)
        tm == RemovableMax(o, a, c)
        ok == {t \in 0..tm : \A s \in 1..t : ExactlyRemovable(o, a, c.a.value, s)}
    IN  RemovedObj(o, a, c.a.value, Max(ok))
After(c) == LET k == WithAxis(c)
            IN  Canon(IF c.op = "remove" THEN RemoveResult(k) ELSE Result([x |-> o], k))
Allowed(c) == Pre([x |-> o], WithAxis(c))

(* how src changes                                                         *)
NewSrc(c) ==
    LET k == WithAxis(c)
        a == AxisOf(o, k.a.axis)
        sub(b, f(_)) == IF src[b].fix THEN src[b] ELSE f(src[b])
        all(f(_)) == [b \in 1..Len(src) |-> IF src[b].fix THEN src[b] ELSE f(src[b])]
        (* old parameter = s*new + t on axis ax *)
        affine(ax, s, t) == all(LAMBDA e : IF e.ax # ax THEN e
                               ELSE [e EXCEPT !.s = RMul(e.s, s), !.t = RAdd(RMul(e.s, t), e.t)])
        RECURSIVE rev(_)
        rev(ax) == affine(ax, -1, RAdd(Lo(o.p[ax], o.U[ax]), Hi(o.p[ax], o.U[ax])))
        moved(pos(_)) == all(LAMBDA e : [e EXCEPT !.ax = pos(e.ax)])
    IN CASE c.op \in {"extract", "boundary"} ->
              LET x == IF c.op = "extract" THEN c.a.value ELSE BoundaryValue(o, a, c)
              IN  [b \in 1..Len(src) |->
                     IF src[b].fix THEN src[b]
                     ELSE IF src[b].ax = a
                     THEN [fix |-> TRUE, ax |-> 0, s |-> RNum(0), t |-> RAdd(RMul(src[b].s, x), src[b].t)]
                     ELSE IF src[b].ax > a THEN [src[b] EXCEPT !.ax = @ - 1] ELSE src[b]]
         [] c.op = "reverse" ->
              IF Len(c.a.axes) = 0 THEN
                  all(LAMBDA e : [e EXCEPT !.s = RNeg(e.s),
                       !.t = RAdd(RMul(e.s, RAdd(Lo(o.p[e.ax], o.U[e.ax]), Hi(o.p[e.ax], o.U[e.ax]))), e.t)])
              ELSE rev(AxisOf(o, c.a.axes[1]))
         [] c.op = "remap" ->
              LET lo == Lo(o.p[a], o.U[a])  hi == Hi(o.p[a], o.U[a])
                  x == IF IsNull(c.a.start) THEN lo ELSE c.a.start[1]
                  y == IF IsNull(c.a.end) THEN hi ELSE c.a.end[1]
                  s == RDiv(RSub(hi, lo), RSub(y, x))
              IN  affine(a, s, RSub(lo, RMul(s, x)))
         [] c.op = "transpose" ->
              LET p == TransposePerm(o, k)
              IN  moved(LAMBDA i : CHOOSE n \in Axes(o) : p[n] = i)
         [] c.op = "swap" ->
              LET x == AxisOf(o, c.a.axis1)  y == AxisOf(o, c.a.axis2)
              IN  moved(LAMBDA i : IF i = x THEN y ELSE IF i = y THEN x ELSE i)
         [] OTHER -> src

----------------------------------------------------------------------------
Start0 == [p |-> o0.p, U |-> [a \in Axes(o0) |-> [i \in 1..Len(o0.U[a]) |-> Tok(o0.U[a][i])]]]
Tell(c, ok) == Emit(ToJson([start |-> first, calls |-> Append(path, c), ok |-> ok]))

Init == /\ o \in Start /\ o0 = o
        /\ src = [a \in Axes(o) |-> [fix |-> FALSE, ax |-> a, s |-> RNum(1), t |-> RNum(0)]]
        /\ path = <<>>
        /\ first = Start0
Do(c) == /\ Allowed(c) = TRUE         \* (one value, not a choice of disjuncts)
         /\ o' = After(c) /\ src' = NewSrc(c) /\ path' = Append(path, c)
         /\ UNCHANGED <<o0, first>>
         /\ Tell(c, TRUE)
Refused(c) == /\ Allowed(c) = FALSE /\ UNCHANGED vars /\ Tell(c, FALSE)
Next == /\ Len(path) < Depth /\ Dim(o) > 0
        /\ LET cs == AllCalls(1)
           IN  \E i \in 1..Len(cs) : \E c \in cs[i] : Do(c) \/ Refused(c)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* The independent evaluation.                                             *)
Samples == [a \in Axes(o) |-> SpanSamples(o.p[a], o.U[a])]
Mapped(us) == [b \in 1..Len(src) |->
    IF src[b].fix THEN <<src[b].t>>
    ELSE [i \in 1..Len(us[src[b].ax]) |-> RAdd(RMul(src[b].s, us[src[b].ax][i]), src[b].t)]]
(* original axes in the order of the present ones, the fixed ones last     *)
Order == LET pos(b) == IF src[b].fix THEN 100 + b ELSE src[b].ax
         IN  CHOOSE s \in [1..Len(src) -> 1..Len(src)] : \A i, j \in 1..Len(src) : i < j => pos(s[i]) < pos(s[j])
Same ==
    LET us == TLCEval(Samples)
        g == CDBGrid(o, us)
        h == CDBGrid(o0, TLCEval(Mapped(us)))
        t == Transpose([p |-> o0.p, U |-> o0.U, sh |-> h.sh, nc |-> h.nc, A |-> h.A], Order)
    IN  RMismatch(g.A, t.A, 0) = 0
Valid == /\ Len(o.sh) = Dim(o) /\ Len(o.A) = Prod(o.sh) * o.nc
         /\ \A a \in Axes(o) : ValidSpace(o.p[a], o.U[a]) /\ o.sh[a] = NumCP(o.p[a], o.U[a])

Eq(x, y) == /\ x.p = y.p /\ x.sh = y.sh /\ x.nc = y.nc
            /\ \A a \in Axes(x) : RMismatch(x.U[a], y.U[a], 0) = 0
            /\ RMismatch(x.A, y.A, 0) = 0
Room(a, u) == o.p[a] - Mult(o.p[a], o.U[a], u)
LawInsert(a) ==
    \A u \in Strictly(a), v \in Strictly(a) :
        (Room(a, u) > 0 /\ Room(a, v) > 0 /\ (REq(u, v) => Room(a, u) > 1)) =>
            LET x == TLCEval(Insert(o, a, u, 1))
                xy == TLCEval(Insert(x, a, v, 1))
            IN  /\ Eq(xy, Insert(Insert(o, a, v, 1), a, u, 1))      \* insertions commute
                /\ Eq(xy, Refine(o, a, <<v, u>>))                   \* refine inserts
                /\ Eq(RemovedObj(x, a, u, 1), o)                    \* and can be undone
                /\ Eq(Insert(x, a, v, 1), xy)
LawElevate(a) ==
    /\ Eq(Elevate(Elevate(o, a, 1), a, 1), Elevate(o, a, 2))        \* elevations add up
    /\ Eq(Elevate(o, a, 1), Elevate(Clamp(o, a, TRUE, TRUE), a, 1))
    /\ \A u \in Strictly(a) : Room(a, u) > 0 =>                     \* and keep the continuity
          CountEq(Elevate(o, a, 1).U[a], u) = (IF CountEq(o.U[a], u) = 0 THEN 0 ELSE CountEq(o.U[a], u) + 1)
LawClamp(a) ==
    LET k == TLCEval(Clamp(o, a, TRUE, TRUE))
    IN  /\ Eq(Clamp(k, a, TRUE, TRUE), k)
        /\ Eq(Clamp(Clamp(o, a, TRUE, FALSE), a, FALSE, TRUE), k)
        /\ LeftClamped(k.p[a], k.U[a]) /\ RightClamped(k.p[a], k.U[a])
        /\ \A c \in 0..(o.p[a]-1) :                                 \* unclamping and clamping cancel
              LET w == TLCEval(Unclamp(o, a, c, TRUE, TRUE))
              IN  Eq(Clamp(w, a, TRUE, TRUE), k)
LawReverse(a) ==
    /\ Eq(Reverse(Reverse(o, a), a), o)
    /\ Eq(Remap(Remap(o, a, "-1", "2"), a, Lo(o.p[a], o.U[a]), Hi(o.p[a], o.U[a])), o)
    /\ Eq(Remap(Reverse(o, a), a, 2, 5), Reverse(Remap(o, a, 2, 5), a))
LawSlice(a) ==
    \A u \in Inside(a), v \in Inside(a) :
        RLt(u, v) =>
            LET x == TLCEval(Slice(o, a, u, v))
            IN  /\ REq(Lo(x.p[a], x.U[a]), u) /\ REq(Hi(x.p[a], x.U[a]), v)
                /\ LeftClamped(x.p[a], x.U[a]) /\ RightClamped(x.p[a], x.U[a])
                /\ Eq(Slice(x, a, u, v), x)                         \* slicing again changes nothing
                /\ Eq(Extract(x, a, v), Extract(o, a, v)) \/ RLt(v, Hi(o.p[a], o.U[a])) 
                /\ \A m \in Inside(a) : RLt(u, m) /\ RLt(m, v) =>   \* slices of slices
                       Eq(Slice(x, a, u, m), Slice(o, a, u, m))
LawBetween ==                       \* calls on different axes commute
    Dim(o) = 2 =>
        /\ \A u \in Strictly(1), v \in Strictly(2) :
              (Room(1, u) > 0 /\ Room(2, v) > 0) =>
                  /\ Eq(Insert(Insert(o, 1, u, 1), 2, v, 1), Insert(Insert(o, 2, v, 1), 1, u, 1))
                  /\ Eq(Transpose(Insert(o, 1, u, 1), <<2, 1>>), Insert(Transpose(o, <<2, 1>>), 2, u, 1))
                  /\ Eq(Extract(Extract(o, 1, u), 1, v), Extract(Extract(o, 2, v), 1, u))
        /\ Eq(Elevate(Clamp(o, 2, TRUE, TRUE), 1, 1), Clamp(Elevate(o, 1, 1), 2, TRUE, TRUE))
        /\ Eq(Transpose(Transpose(o, <<2, 1>>), <<2, 1>>), o)
Laws ==
    (Len(path) <= LawDepth /\ Dim(o) > 0) =>
        /\ \A a \in Axes(o) :
              /\ (Ops \cap {"insert", "refine", "remove"} # {} => LawInsert(a))
              /\ ("elevate" \in Ops => LawElevate(a))
              /\ (Ops \cap {"clamp", "unclamp"} # {} => LawClamp(a))
              /\ (Ops \cap {"reverse", "remap"} # {} => LawReverse(a))
              /\ ("slice" \in Ops => LawSlice(a))
        /\ LawBetween
=============================================================================
