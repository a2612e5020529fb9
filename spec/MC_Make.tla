------------------------------ MODULE MC_Make ------------------------------
(***************************************************************************)
(* The constructions that need numbers as arguments: grid, circle, refine, *)
(* extrude, sweep, revolve.  Like MC_Cad: every small choice of inputs and *)
(* arguments, a construction that is made step by step, the relation Cad   *)
(* demands of it (which must hold), what it means at sampled parameters    *)
(* (which must hold), and spoilt results (which must be rejected).         *)
(* Arcs may be made of any number of pieces: the specification says what   *)
(* an arc is, not how it is parametrized.                                  *)
(***************************************************************************)
EXTENDS Cad, Small, Json

CONSTANTS What, Degrees, Spans, Ends, Dims, Args
VARIABLES what, o, t,   \* the construction and its inputs (t: second input of sweep)
          arg,          \* its other arguments, as the trace records them
          pieces,       \* how an arc is cut
          stage, q
vars == <<what, o, t, arg, pieces, stage, q>>
view == vars

Pt3(x, y, z) == [nd |-> 1, x |-> <<x, y, z>>]
N0(x) == [nd |-> 0, x |-> <<x>>]
N1(s) == [nd |-> 1, x |-> s]
Blank == [p |-> <<>>, U |-> <<>>, sh |-> <<>>, nc |-> 4, A |-> <<>>]
Many(S, T) == IF Args = "many" THEN S \cup T ELSE S

----------------------------------------------------------------------------
(* Arguments.                                                              *)
Angle(x) == <<<<>>, <<x>>>>
Arc(x, y) == <<<<x>>, <<y>>>>
Angles == Many({Angle("0.7"), Angle("-2.5"), Arc("1.0", "4.0"), Arc("2.0", "-4.0"), Angle("6.283185307179586")},
               {Angle("1.5707963267948966"), Angle("-6.283185307179586"), Arc("-1.0", "-1.001"), Arc("7.0", "7.7"),
                Angle("3.141592653589793"), Angle("1.5707963277948967"), <<>>})
Lim1 == <<N1(<<"0", "1">>), [nd |-> 2, x |-> <<<<"-3/2", "2">>>>]>>
Lim2 == <<N1(<<"0", "1">>), [nd |-> 2, x |-> <<<<"0", "2">>, <<"-1", "1">>>>]>>
GridArgs1 == {<<s, N0(p), c, l, N0(w)>> :
    s \in {N0(1), N1(<<2>>), N0(3)}, p \in Degrees,
    c \in {<<>>, <<N0(0)>>, <<N1(<<-1>>)>>} \cup Many({}, {<<N0(-2)>>, <<N0(1)>>, <<N0(2)>>}),
    l \in 1..2,
    w \in {TRUE, FALSE}}
GridArgs2 == {<<s, p, c, l, w>> :
    s \in {N1(<<1, 2>>), N1(<<2, 3>>)}, p \in {N1(<<1, 2>>), N0(2)},
    c \in {<<>>, <<N0(0)>>, <<N1(<<0, -1>>)>>},
    l \in 1..2,
    w \in {N0(FALSE), N1(<<TRUE, FALSE>>)}}
CircleArgs == {[radius |-> r, center |-> c, angle |-> g, objs |-> <<>>] :
    r \in {"1", "5/2"}, c \in {<<>>, <<Pt3("1", "-2", "1/2")>>}, g \in Angles}
RevolveArgs == {[point |-> p, axis |-> x, angle |-> g] :
    p \in {Pt3("0", "0", "0"), Pt3("1", "-2", "3")},
    x \in Many({N0(2), N1(<<"1", "2", "2">>)}, {N0(0), N0(-2), N1(<<"0", "0", "-2">>)}),
    g \in Angles}
RefArg(n) ==                        \* n spans (one axis)
    {[degree |-> d, continuity |-> c, factor |-> f] :
        d \in {<<>>, <<[nd |-> 0, x |-> <<<<2>>>>]>>, <<[nd |-> 1, x |-> <<<<3>>>>]>>},
        c \in {<<>>, <<[nd |-> 0, x |-> <<<<0>>>>]>>, <<[nd |-> 1, x |-> <<<<-1>>>>]>>}
              \cup Many({}, {<<[nd |-> 0, x |-> <<<<1>>>>]>>, <<[nd |-> 0, x |-> <<<<-2>>>>]>>}),
        f \in {<<>>, <<[nd |-> 0, x |-> <<<<N0(2)>>>>]>>}
              \cup {<<[nd |-> 1, x |-> <<<<N1([i \in 1..n |-> IF i = 1 THEN 2 ELSE 1])>>>>]>>}
              \cup Many({}, {<<[nd |-> 1, x |-> <<<<N1([i \in 1..n |-> IF i = n THEN 3 ELSE 1])>>>>]>>})}
RefArgs2 == {[degree |-> d, continuity |-> c, factor |-> f] :
        d \in {<<>>, <<[nd |-> 1, x |-> <<<<2>>, <<>>>>]>>},
        c \in {<<>>, <<[nd |-> 1, x |-> <<<<>>, <<0>>>>]>>},
        f \in {<<[nd |-> 0, x |-> <<<<N0(2)>>>>]>>, <<[nd |-> 1, x |-> <<<<N0(2)>>, <<>>>>]>>}}
ExtrudeArgs == {[d |-> N0("5/2"), axis |-> <<>>], [d |-> N0("-1"), axis |-> <<2>>], [d |-> N0("1"), axis |-> <<-2>>],
                [d |-> Pt3("1", "-2", "1/2"), axis |-> <<>>], [d |-> N1(<<"3", "1">>), axis |-> <<>>]}

----------------------------------------------------------------------------
(* Inputs.                                                                 *)
SP == SpacesOf(Degrees, Spans, Ends)
Objs == IF Dims = 1 THEN {ObjOn(<<s>>, 4, 0) : s \in SP} ELSE {ObjOn(<<s, r>>, 4, 0) : s \in SP, r \in SP}
Sections == {ObjOn(<<s>>, 4, 1) : s \in SpacesOf({1, 2}, {1, 2}, "clamped")}
Sweep0 == IF "angle" \in DOMAIN arg THEN ArcSweep(arg.angle) ELSE 1
Cuts == IF what \in {"circle", "revolve"}
        THEN {k \in 1..5 : RLt(RDiv(RAbs(Sweep0), k), "5/2")} ELSE {0}
Init ==
    /\ what \in What
    /\ CASE what = "grid" -> /\ o = Blank /\ t = Blank
              /\ \E g \in (IF Dims = 1 THEN GridArgs1 ELSE GridArgs2) :
                    arg = [shape |-> g[1], degree |-> g[2], continuity |-> g[3],
                           limits |-> (IF Dims = 1 THEN Lim1 ELSE Lim2)[g[4]], wrap |-> g[5]]
         [] what = "circle" -> o = Blank /\ t = Blank /\ arg \in CircleArgs
         [] what = "revolve" -> o \in Objs /\ t = Blank /\ arg \in RevolveArgs
         [] what = "refine" -> /\ o \in Objs /\ t = Blank
                               /\ arg \in (IF Dims = 1 THEN RefArg(Len(Breaks(o.p[1], o.U[1])) - 1) ELSE RefArgs2)
         [] what = "extrude" -> o \in Objs /\ t = Blank /\ arg \in ExtrudeArgs
         [] what = "sweep" -> o \in Objs /\ t \in Sections /\ arg = [objs |-> <<>>]
    /\ pieces \in Cuts
    /\ stage = "chosen" /\ q = Blank

----------------------------------------------------------------------------
(* Making.                                                                 *)
ArcKnots(n) ==
    LET RECURSIVE go(_)
        go(i) == IF i >= n THEN <<>> ELSE <<RDiv(i, n), RDiv(i, n)>> \o go(i+1)
    IN  <<0, 0, 0>> \o go(1) \o <<1, 1, 1>>
(* the j-th of 2n+1 rational points of an arc: its angle, and the weight   *)
ArcPoint(start, sweep, n, j) ==
    LET d == RDiv(sweep, n)
    IN  [cs |-> TLCEval(CosSin(RAdd(start, RMul(RDiv(j, 2), d)))),
         w |-> IF j % 2 = 0 THEN RNum(1) ELSE TLCEval(CosSin(RDiv(d, 2)))[1]]
MakeCircle(a, n, sweep) ==
    LET c == IF Len(a.center) = 0 THEN <<0, 0, 0>> ELSE a.center[1].x
        P == TLCEval([j1 \in 1..(2*n+1) |->
               LET x == ArcPoint(ArcStart(a.angle), sweep, n, j1-1)
               IN  <<RAdd(RMul(a.radius, x.cs[1]), RMul(c[1], x.w)), RAdd(RMul(a.radius, x.cs[2]), RMul(c[2], x.w)),
                     RMul(c[3], x.w), x.w>>])
    IN  [p |-> <<2>>, U |-> <<ArcKnots(n)>>, sh |-> <<2*n+1>>, nc |-> 4,
         A |-> TLCEval([i \in 1..(4*(2*n+1)) |-> P[((i-1) \div 4) + 1][((i-1) % 4) + 1]])]
MakeRevolve(x, a, n, sweep) ==
    LET v == TLCEval(RotUnit(a.axis))
        pt == a.point.x
        m == 2*n + 1
        X == TLCEval([j1 \in 1..m |-> ArcPoint(ArcStart(a.angle), sweep, n, j1-1)])
        R == TLCEval([j1 \in 1..m |-> RotMat(X[j1].cs[1], X[j1].cs[2], v)])
        (* homogeneous point i at angle j: foot on the axis times w, plus the turned radius *)
        pnt(i, j) ==
            LET W == HComp(x, i, 4)
                r == TLCEval([c \in 1..3 |-> RSub(RDiv(HComp(x, i, c), W), pt[c])])
                z == Dot3(r, v)
                foot == TLCEval([c \in 1..3 |-> RAdd(pt[c], RMul(z, v[c]))])
                rad == TLCEval([c \in 1..3 |-> RSub(r[c], RMul(z, v[c]))]) \o <<0>>
                tr == MatVec4(R[j+1], rad)
            IN  TLCEval([c \in 1..4 |-> IF c = 4 THEN RMul(W, X[j+1].w)
                                        ELSE RMul(W, RAdd(RMul(X[j+1].w, foot[c]), tr[c]))])
        N == Prod(x.sh)
        P == TLCEval([i1 \in 1..(N*m) |-> pnt((i1-1) \div m, (i1-1) % m)])
    IN  [p |-> x.p \o <<2>>, U |-> x.U \o <<ArcKnots(n)>>, sh |-> x.sh \o <<m>>, nc |-> 4,
         A |-> TLCEval([i \in 1..(4*N*m) |-> P[((i-1) \div 4) + 1][((i-1) % 4) + 1]])]
(* one axis: raise the degree, raise the breaks to the continuity, split   *)
RECURSIVE InsertMany(_, _, _, _)
InsertMany(x, a, us, k) ==          \* each of us until it is there k times
    IF Len(us) = 0 THEN x
    ELSE LET have == CountEq(x.U[a], us[1])
             y == IF have < k THEN TLCEval(Insert(x, a, us[1], k - have)) ELSE x
         IN  InsertMany(y, a, Tail(us), k)
RefineAxis(x, a, P, C, N) ==
    LET c == TLCEval(Clamp(x, a, TRUE, TRUE))
        e == IF P > x.p[a] THEN TLCEval(Elevate(c, a, P - x.p[a])) ELSE c
        b == Breaks(e.p[a], e.U[a])
        n == Len(b) - 1
        RECURSIVE new(_)
        new(i) == IF i > n THEN <<>>
                  ELSE [j \in 1..(N[i]-1) |-> RAdd(b[i], RMul(RDiv(j, N[i]), RSub(b[i+1], b[i])))] \o new(i+1)
    IN  InsertMany(e, a, SubSeq(b, 2, n) \o new(1), P - C)
RECURSIVE RefineAxes(_, _, _, _, _)
RefineAxes(x, P, C, N, a) ==
    IF a > Dim(x) THEN x ELSE RefineAxes(RefineAxis(x, a, P[a], C[a], N[a]), P, C, N, a+1)
MakeGrid(a) ==                      \* each axis on its own, then put together
    LET d == GridDim(a)  p == GridDeg(a)  C == GridCont(a)
        ax(i) == LET l == GridLim(a)[i]
                     n == PerAx(a.shape, d)[i]
                     x == [p |-> <<1>>, U |-> <<<<l[1], l[1], l[2], l[2]>>>>, sh |-> <<2>>, nc |-> 4,
                           A |-> <<l[1], 0, 0, 1, l[2], 0, 0, 1>>]
                     y == TLCEval(RefineAxis(x, 1, p[i], C[i], <<n>>))
                 IN  IF PerAx(a.wrap, d)[i] THEN TLCEval(Unclamp(y, 1, C[i], TRUE, TRUE)) ELSE y
        Y == TLCEval([i \in 1..d |-> ax(i)])
        sh == [i \in 1..d |-> Y[i].sh[1]]
    IN  [p |-> p, U |-> [i \in 1..d |-> Y[i].U[1]], sh |-> sh, nc |-> 4,
         A |-> TLCEval([x1 \in 1..(Prod(sh)*4) |->
                LET i == (x1-1) \div 4  c == ((x1-1) % 4) + 1
                IN  IF c = 4 THEN 1 ELSE IF c > d THEN 0 ELSE Y[c].A[4*((i \div Strides(sh)[c]) % sh[c]) + 1]])]
OK == CASE what = "grid" -> GridOK(arg) /\ GridMeaning(arg)
        [] what = "refine" -> RefineCadOK(o, arg)
        [] what = "revolve" -> RevolveOK(o, arg) /\ ArcDefined(arg.angle)
        [] OTHER -> TRUE
Made ==
    CASE what = "grid" -> MakeGrid(arg)
      [] what = "circle" -> MakeCircle(arg, pieces, ArcSweep(arg.angle))
      [] what = "revolve" -> MakeRevolve(o, arg, pieces, ArcSweep(arg.angle))
      [] what = "refine" -> RefineAxes(o, RefDeg(o, arg), RefCont(o, arg), RefCounts(o, arg), 1)
      [] what = "extrude" -> Extruded(o, TranslateMat(arg.d, arg.axis))
      [] what = "sweep" -> Swept(o, t)
VerdictOn(x) ==
    CASE what = "grid" -> GridVerdict(x, arg)
      [] what = "circle" -> CircleVerdict(x, arg)
      [] what = "revolve" -> RevolveVerdict(o, x, arg)
      [] what = "refine" -> RefineCadVerdict(o, x, arg)
      [] what = "extrude" -> ObjVerdict(x, Extruded(o, TranslateMat(arg.d, arg.axis)), FALSE, RMaxAbs(o.A))
      [] what = "sweep" -> ObjVerdict(x, Swept(o, t), FALSE, 0)

Canon(x) == [x EXCEPT !.U = [a \in 1..Len(x.U) |-> [i \in 1..Len(x.U[a]) |-> RNum(x.U[a][i])]],
                      !.A = TLCEval([i \in 1..Len(x.A) |-> RNum(x.A[i])])]
Tell == IF \E j \in Cuts : j < pieces THEN TRUE      \* each call once
        ELSE Emit(ToJson([what |-> what, o |-> ObjStrs(o), t |-> ObjStrs(t), arg |-> arg, ok |-> OK]))
Make == /\ stage = "chosen" /\ Tell
        /\ IF OK THEN q' = Canon(Made) /\ stage' = "made" ELSE q' = q /\ stage' = "refused"
        /\ UNCHANGED <<what, o, t, arg, pieces>>
Spoilt(k) ==
    LET d == Dim(q)
    IN CASE k = "point" -> [q EXCEPT !.A = Put(@, Len(@) - 3, RAdd(@[Len(@) - 3], "1/1000"))]
         [] k = "weight" -> [q EXCEPT !.A = Put(@, 8, RMul(@[8], "99/100"))]
         [] k = "reverse" -> Reverse(q, d)
         [] k = "degree" -> Elevate(q, 1, 1)
         [] k = "knot" -> LET u == RAdd(LoOf(q, d), RMul("5/16", RSub(HiOf(q, d), LoOf(q, d)))) IN Insert(q, d, u, 1)
         [] k = "range" -> Remap(q, 1, RSub(LoOf(q, 1), 1), HiOf(q, 1))
         [] k = "short" -> IF what = "circle" THEN MakeCircle(arg, pieces, RMul(Sweep0, "999/1000"))
                           ELSE MakeRevolve(o, arg, pieces, RMul(Sweep0, "999/1000"))
         [] k = "otherway" -> LET s == IF RLt(0, Sweep0) THEN RSub(Sweep0, RMul(2, Pi)) ELSE RAdd(Sweep0, RMul(2, Pi))
                              IN  IF what = "circle" THEN MakeCircle(arg, 5, s) ELSE MakeRevolve(o, arg, 5, s)
         [] k = "again" -> LET s == IF RLt(0, Sweep0) THEN RAdd(Sweep0, RMul(2, Pi)) ELSE RSub(Sweep0, RMul(2, Pi))
                           IN  IF what = "circle" THEN MakeCircle(arg, 9, s) ELSE MakeRevolve(o, arg, 9, s)
Kinds == CASE what \in {"circle"} -> {"point", "weight", "reverse", "range", "short", "again", "otherway"}
           [] what = "revolve" -> {"point", "reverse", "short", "again", "otherway"}
           [] OTHER -> {"point", "weight", "reverse", "degree", "knot", "range"}
FullTurn == RLt("62/10", RAbs(Sweep0))
Spoil(k) == /\ stage = "made" /\ stage' = "spoilt"
            /\ ~(k = "otherway" /\ FullTurn)
            /\ q' = Canon(Spoilt(k)) /\ q' # q
            /\ UNCHANGED <<what, o, t, arg, pieces>>
Next == Make \/ \E k \in Kinds : Spoil(k)
Spec == Init /\ [][Next]_vars

Accepts == stage = "made" => VerdictOn(q) = ""
Rejects == stage = "spoilt" => VerdictOn(q) # ""

----------------------------------------------------------------------------
(* What the results mean, at sampled parameters.                           *)
SampleAt(x) == [a \in Axes(x) |-> SpanSamples(x.p[a], x.U[a])]
PtsOn(x, us) == LET g == Grid(x, us, NoDer(x)) IN [sh |-> g.sh, A |-> ProjectFrom(g.A, 4, 1, 3, 4)]
MeaningGrid ==                      \* every parameter maps to itself
    LET us == TLCEval(SampleAt(q))  g == TLCEval(PtsOn(q, us))  d == Dim(q)
        n == Prod(g.sh)
    IN  \A i \in 0..(n-1) : \A c \in 1..3 :
            REq(g.A[3*i + c], IF c > d THEN 0 ELSE us[c][((i \div Strides(g.sh)[c]) % g.sh[c]) + 1])
MeaningExtrude ==
    LET us == TLCEval(SampleAt(o))  g == TLCEval(PtsOn(o, us))
        v == TranslateMat(arg.d, arg.axis)
        m(s) == TLCEval(PtsOn(q, us \o <<<<s>>>>))
    IN  \A s \in {"0", "1/3", "1"} : LET h == m(s)
        IN \A i \in 1..Len(g.A) : REq(h.A[i], RAdd(g.A[i], RMul(s, v[4*(((i-1) % 3) + 1)])))
MeaningSweep ==
    LET us == TLCEval(SampleAt(o))  vs == TLCEval(SampleAt(t))
        g == TLCEval(PtsOn(o, us))  h == TLCEval(PtsOn(t, vs))  x == TLCEval(PtsOn(q, us \o vs))
        nv == Len(vs[1])
    IN  \A i \in 0..((Len(x.A) \div 3) - 1) : \A c \in 1..3 :
            REq(x.A[3*i + c], RAdd(g.A[3*(i \div nv) + c], h.A[3*(i % nv) + c]))
MeaningRefine ==
    LET us == TLCEval(SampleAt(q)) IN RMismatch(PtsOn(q, us).A, PtsOn(o, us).A, 0) = 0
Meaning ==
    stage = "made" =>
        CASE what = "grid" -> MeaningGrid
          [] what = "extrude" -> MeaningExtrude
          [] what = "sweep" -> MeaningSweep
          [] what = "refine" -> MeaningRefine
          [] OTHER -> TRUE
Sound == stage = "made" => WellFormed(q) /\ PositiveWeights(q)
=============================================================================
