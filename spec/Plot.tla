-------------------------------- MODULE Plot --------------------------------
(***************************************************************************)
(* Drawing.  A plot call hands a back end points, polylines, surface       *)
(* patches and arrows.  What a back end draws is a set: of points, of      *)
(* polylines (either way round; a net is drawn as its grid lines along     *)
(* every axis), of patches.  a.res1, a.res2: the back end's resolution     *)
(* along a line and along a surface.                                       *)
(*                                                                         *)
(* c.a: backend ("rec": a recording one; "mpl": matplotlib, its drawn      *)
(* artists; "nul"), plotter ("" or the plotter of the session that draws,  *)
(* with whatever back end it uses), mode ("" or given), kw (the options    *)
(* given), axes (<<>> or <<sequence>>).                                     *)
(* c.val.items: [kind: points | lines | surf | faces | quiver, sh, A, look] *)
(* c.val.on: the back ends that drew something; c.val.axes: how many axes  *)
(* matplotlib drew on.                                                     *)
(*                                                                         *)
(* A plotter is [B |-> the back end it uses, "" while it has not chosen].  *)
(* It chooses when it needs one: mayavi if there is one, else matplotlib.  *)
(***************************************************************************)
EXTENDS Io

PlotOps == {"d_points", "d_quiver", "d_cpoint", "d_cwire", "d_kpoint", "d_kwire", "d_ksurf",
            "d_curve", "d_surface", "d_volume", "d_plot", "d_cplot", "d_kplot"}
BackendOps == {"d_use", "d_plotter", "d_attr", "d_fresh"}
Backends == [matplotlib |-> "mpl", mpl |-> "mpl", mayavi |-> "rec", myv |-> "rec",
             null |-> "nul", none |-> "nul", nul |-> "nul"]     \* the driver's recorder stands in for mayavi

Default == "rec"                    \* the driver's recorder, again
Uses(B) == IF B = "" THEN Default ELSE B
OnBackend(heap, c) == IF c.a.plotter = "" THEN c.a.backend ELSE Uses(heap[c.a.plotter].B)
(* what a sequence of choices makes of a new plotter where mayavi cannot be *)
(* imported: what became of each, and the back end used in the end          *)
RECURSIVE Fresh(_, _, _)
Fresh(names, B, out) ==
    IF Len(names) = 0 THEN Append(out, IF B = "" THEN "mpl" ELSE B)
    ELSE LET n == Head(names)  ok == n \in DOMAIN Backends /\ Backends[n] # "rec"
         IN  Fresh(Tail(names), IF ok THEN Backends[n] ELSE B, Append(out, IF ok THEN "ok" ELSE "refused"))

LinSeq(lo, hi, n) ==
    [k \in 1..n |-> IF k = n /\ n > 1 THEN hi
                    ELSE RAdd(lo, RDiv(RMul(k-1, RSub(hi, lo)), n-1))]
Sample(o, us) ==                    \* points of the object on a parameter grid
    IF Dim(o) = 0 THEN [sh |-> <<>>, A |-> ProjectFrom(o.A, o.nc, 1, 3, 4)]
    ELSE LET g == Grid(o, us, NoDer(o))
         IN  [sh |-> [i \in 1..Dim(o) |-> Len(us[i])], A |-> ProjectFrom(g.A, g.nc, 1, 3, 4)]
Even(o, n) == [a \in Axes(o) |-> LinSeq(Lo(o.p[a], o.U[a]), Hi(o.p[a], o.U[a]), n)]
BreakGrid(o) == [a \in Axes(o) |-> Breaks(o.p[a], o.U[a])]
Nothing == [pts |-> <<>>, lines |-> <<>>, surfs |-> <<>>]
RECURSIVE Concat(_)
Concat(ss) == IF Len(ss) = 0 THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

(* the points (0-based, row major) where the grid lines along axis a begin *)
AxisStarts(sh, a) ==
    SelectSeq([k \in 1..Prod(sh) |-> k-1], LAMBDA x : (x \div Strides(sh)[a]) % sh[a] = 0)
(* the grid lines of an array of points                                    *)
GridLines(sh, A) ==
    IF Len(sh) = 0 THEN <<A>>
    ELSE LET st == Strides(sh)
             starts(a) == AxisStarts(sh, a)
             line(a, x) == TLCEval([k1 \in 1..(3*sh[a]) |-> A[(x + ((k1-1) \div 3)*st[a])*3 + ((k1-1) % 3) + 1]])
         IN  Concat([a \in 1..Len(sh) |-> [i \in 1..Len(starts(a)) |-> line(a, starts(a)[i])]])
NetLines(o) == GridLines(o.sh, Points(o))
Faces2(o) ==                        \* the boundary faces of an object
    Concat([a \in Axes(o) |-> <<Extract(o, a, Lo(o.p[a], o.U[a])), Extract(o, a, Hi(o.p[a], o.U[a]))>>])
RECURSIVE Edges(_)
Edges(o) == IF Dim(o) <= 1 THEN <<o>>
            ELSE LET f == Faces2(o) IN Concat([i \in 1..Len(f) |-> Edges(f[i])])
CurveLines(o, a) ==
    IF Dim(o) < 1 THEN <<>>
    ELSE LET e == TLCEval(Edges(o)) IN [i \in 1..Len(e) |-> Sample(e[i], Even(e[i], a.res1)).A]
SurfItems(o, a) ==
    IF Dim(o) < 2 THEN <<>>
    ELSE LET f == IF Dim(o) = 2 THEN <<o>> ELSE TLCEval(Faces2(o))
         IN  [i \in 1..Len(f) |-> Sample(f[i], Even(f[i], a.res2))]
DrawAxes(o, a) == IF Len(a.axes) = 0 THEN [i \in Axes(o) |-> i]
                  ELSE [i \in 1..Len(a.axes[1]) |-> AxisOf(o, a.axes[1][i])]
AxesOK(o, a) == \A i \in 1..Len(DrawAxes(o, a)) : DrawAxes(o, a)[i] # 0
KnotLines(o, a) ==
    LET ax == DrawAxes(o, a)
        us(x) == [b \in Axes(o) |-> IF b = x THEN LinSeq(Lo(o.p[b], o.U[b]), Hi(o.p[b], o.U[b]), a.res1)
                                    ELSE Breaks(o.p[b], o.U[b])]
        (* only the grid lines along that axis                              *)
        along(x) == LET s == Sample(o, us(x))
                        st == Strides(s.sh)
                        starts == AxisStarts(s.sh, x)
                    IN  [i \in 1..Len(starts) |-> TLCEval([k1 \in 1..(3*s.sh[x]) |->
                            s.A[(starts[i] + ((k1-1) \div 3)*st[x])*3 + ((k1-1) % 3) + 1]])]
    IN  Concat([i \in 1..Len(ax) |-> along(ax[i])])
KnotSurfs(o, a) ==
    LET ax == DrawAxes(o, a)
    IN  Concat([i \in 1..Len(ax) |-> LET b == Breaks(o.p[ax[i]], o.U[ax[i]])
            IN  [k \in 1..Len(b) |-> LET e == Extract(o, ax[i], b[k]) IN Sample(e, Even(e, a.res2))]])
Pad3(P) ==                          \* an array of points, missing coordinates zero
    LET k == IF Len(P.sh) = 0 THEN 1 ELSE P.sh[Len(P.sh)]
    IN  [x1 \in 1..(3*(Len(P.A) \div k)) |->
            LET i == (x1-1) \div 3  c == (x1-1) % 3 IN IF c < k THEN P.A[i*k + c + 1] ELSE 0]

What(o, c) ==                       \* plot(): by dimension
    CASE c.op = "d_plot" -> (CASE Dim(o) = 1 -> "d_curve" [] Dim(o) = 2 -> "d_surface"
                               [] Dim(o) = 3 -> "d_volume" [] OTHER -> "d_none")
      [] OTHER -> c.op
Drawing(o, c) ==
    LET w == What(o, c)
    IN  CASE w = "d_cpoint" -> [Nothing EXCEPT !.pts = Points(o)]
          [] w = "d_cwire" -> [Nothing EXCEPT !.lines = NetLines(o)]
          [] w = "d_cplot" -> [Nothing EXCEPT !.pts = Points(o), !.lines = NetLines(o)]
          [] w = "d_kpoint" -> [Nothing EXCEPT !.pts = Sample(o, BreakGrid(o)).A]
          [] w = "d_kwire" -> [Nothing EXCEPT !.lines = KnotLines(o, c.a)]
          [] w = "d_kplot" -> [Nothing EXCEPT !.pts = Sample(o, BreakGrid(o)).A, !.lines = KnotLines(o, c.a)]
          [] w = "d_ksurf" -> [Nothing EXCEPT !.surfs = KnotSurfs(o, c.a)]
          [] w = "d_curve" -> [Nothing EXCEPT !.lines = CurveLines(o, c.a)]
          [] w = "d_surface" -> [Nothing EXCEPT !.surfs = SurfItems(o, c.a)]
          [] w = "d_volume" -> IF Dim(o) < 3 THEN Nothing ELSE [Nothing EXCEPT !.surfs = SurfItems(o, c.a)]
          [] w = "d_points" -> [Nothing EXCEPT !.pts = Pad3(c.a.P)]
          [] OTHER -> Nothing

TakesLineMode == {"d_cwire", "d_kwire", "d_curve"}
ModeOK(o, c) ==
    LET w == What(o, c)
    IN  c.a.mode = "" \/ w \notin TakesLineMode \/ c.a.mode \in {"line", "tube"}
        \/ (w = "d_curve" /\ Dim(o) < 1)
PointShapeOK(P) == Len(P.sh) = 0 \/ P.sh[Len(P.sh)] \in 1..3
PlotStatus(heap, c) ==
    IF c.op = "d_use" THEN (IF c.a.name \in DOMAIN Backends THEN "must" ELSE "mustnot")
    ELSE IF c.op = "d_plotter"
         THEN (IF Len(c.a.name) = 0 \/ c.a.name[1] \in DOMAIN Backends THEN "must" ELSE "mustnot")
    ELSE IF c.op = "d_attr" THEN (IF c.a.name \in {"points3d", "line3d", "surf3d"} THEN "must" ELSE "any")
    ELSE IF c.op = "d_fresh" THEN "must"
    ELSE IF c.op = "d_points" THEN (IF PointShapeOK(c.a.P) THEN "must" ELSE "mustnot")
    ELSE IF c.op = "d_quiver"
         THEN (IF ~PointShapeOK(c.a.P) \/ ~PointShapeOK(c.a.V) THEN "mustnot"
               ELSE IF OnBackend(heap, c) = "mpl" \/ Len(Pad3(c.a.P)) # Len(Pad3(c.a.V)) THEN "any" ELSE "must")
    ELSE LET o == heap[c.self]
         IN  IF Dim(o) = 0 THEN "any"
             ELSE IF c.op \in {"d_cplot", "d_kplot"} /\ c.a.mode # "" THEN "any"
             ELSE IF ~ModeOK(o, c) THEN "mustnot"
             ELSE IF c.op \in {"d_kwire", "d_ksurf"} /\ ~AxesOK(o, c.a) THEN "mustnot"
             ELSE "must"

(* --- comparing drawings -------------------------------------------------- *)
Cover(S, T, same(_, _)) ==          \* nothing else, and nothing missing
    /\ \A i \in 1..Len(S) : \E j \in 1..Len(T) : same(S[i], T[j])
    /\ \A j \in 1..Len(T) : \E i \in 1..Len(S) : same(S[i], T[j])
Near(A, i, B, j, tol) ==            \* point i of A, point j of B (0-based)
    \A c \in 1..3 : RClose(A[3*i+c], B[3*j+c], tol)
PointSet(A) == [i \in 1..(Len(A) \div 3) |-> SubSeq(A, 3*i-2, 3*i)]
SamePoints(A, B, tol) ==
    \/ (Len(A) = Len(B) /\ RMismatch(A, B, tol) = 0)
    \/ Cover(PointSet(A), PointSet(B), LAMBDA x, y : Near(x, 0, y, 0, tol))
SameLine(l, m, tol) ==
    /\ Len(l) = Len(m)
    /\ LET n == Len(l) \div 3
       IN  \/ RMismatch(l, m, tol) = 0
           \/ \A i \in 0..(n-1) : Near(l, i, m, n-1-i, tol)
SamePatch(s, t, tol) ==             \* s, t: [sh, A]; as it is, or with its axes exchanged
    \/ s.sh = t.sh /\ RMismatch(s.A, t.A, tol) = 0
    \/ /\ Len(s.sh) = 2 /\ Len(t.sh) = 2 /\ s.sh[1] = t.sh[2] /\ s.sh[2] = t.sh[1]
       /\ \A i \in 0..(s.sh[1]-1) : \A j \in 0..(s.sh[2]-1) :
             Near(s.A, i*s.sh[2]+j, t.A, j*t.sh[2]+i, tol)
(* the cells of a patch, as matplotlib draws them: four corners each        *)
Cells(s) ==
    IF Len(s.sh) # 2 THEN <<>>
    ELSE LET m == s.sh[2] - 1
             pt(i, j) == SubSeq(s.A, (i*s.sh[2]+j)*3 + 1, (i*s.sh[2]+j)*3 + 3)
         IN  TLCEval([k1 \in 1..((s.sh[1]-1)*m) |->
                LET i == (k1-1) \div m  j == (k1-1) % m
                IN  pt(i, j) \o pt(i, j+1) \o pt(i+1, j+1) \o pt(i+1, j)])

(* --- how it is to look --------------------------------------------------- *)
(* The options of a call reach the back end as they are, with a colour, a  *)
(* shape of the marks and a representation where none is given.            *)
Part(w, k) ==                       \* which of two calls draws it
    CASE w = "d_cplot" -> IF k = "points" THEN "d_cpoint" ELSE "d_cwire"
      [] w = "d_kplot" -> IF k = "points" THEN "d_kpoint" ELSE "d_kwire"
      [] OTHER -> w
Yellow == {"d_curve", "d_surface", "d_volume"}
LookColor(w, kw) ==
    IF kw.color = "None" /\ w \in Yellow THEN ""
    ELSE IF kw.color # "" THEN kw.color
    ELSE CASE w = "d_cpoint" -> "1 0 0"
           [] w = "d_cwire" -> "0 0 1"
           [] w \in {"d_kpoint", "d_kwire", "d_ksurf"} -> "0 1 0"
           [] w \in Yellow -> "1 1 0"
           [] OTHER -> ""
LookMode(w, k, m) ==
    CASE k = "lines" -> ""          \* says how lines look
      [] m # "" -> m
      [] k = "quiver" -> "arrow"
      [] k = "points" -> IF w = "d_kpoint" THEN "cube" ELSE "sphere"
      [] OTHER -> ""
LineMode(w, m) == IF m # "" THEN m ELSE IF w = "d_curve" THEN "tube" ELSE "line"
LookRep(w, k, m, kw) ==
    CASE k = "lines" -> IF LineMode(w, m) = "line" THEN "wireframe" ELSE "surface"
      [] k = "surf" -> "surface"
      [] OTHER -> kw.rep
LookTube(w, k, m, kw) == IF k = "lines" /\ LineMode(w, m) = "line" THEN "None" ELSE kw.tube
LookScale(w, kw) == IF kw.scaled THEN 1 ELSE IF w = "d_cpoint" THEN "1/8" ELSE IF w = "d_kpoint" THEN "1/10" ELSE 1
LookVerdict(w0, a, x) ==            \* x drawn by the recorder
    LET w == Part(w0, x.kind)
    IN  IF x.look.color # LookColor(w, a.kw) THEN "colour"
        ELSE IF x.look.mode # LookMode(w, x.kind, a.mode) THEN "mode"
        ELSE IF x.look.rep # LookRep(w, x.kind, a.mode, a.kw) THEN "representation"
        ELSE IF x.look.tube # LookTube(w, x.kind, a.mode, a.kw) THEN "tube"
        ELSE IF x.look.rest # a.kw.rest THEN "options"
        ELSE IF ~RClose(x.look.scale, LookScale(w, a.kw), "1/1000000000000") THEN "scale" ELSE ""
Mark(m) == CASE m = "sphere" -> "o" [] m = "cube" -> "s" [] m = "cone" -> "^" [] OTHER -> "o"
MplLook(w0, a, x) ==                \* x drawn by matplotlib (it shades surfaces)
    LET w == Part(w0, x.kind)  c == LookColor(w, a.kw)
    IN  IF x.kind = "faces" THEN    \* by colour map if no colour is asked for
            (IF c = "None" \/ (c = "") = (x.look.mode = "mapped") THEN "" ELSE "colour")
        ELSE IF x.kind \notin {"points", "lines"} THEN ""
        ELSE IF c \notin {"", "None"} /\ x.look.color # c THEN "colour"
        ELSE IF x.kind = "points" /\ x.look.mode # Mark(LookMode(w, "points", a.mode)) THEN "marks"
        ELSE ""

Kind(items, k) == SelectSeq(items, LAMBDA x : x.kind = k)
DrawnFinite(items) == \A i \in 1..Len(items) : RAllFinite(items[i].A)
Scale3(A) == RMul(NetTol, RMax(1, RMaxAbs(A)))
DrawVerdict(heap, ev) ==
    LET c == ev  a == ev.a
        items == ev.val.items
        ks == {"points", "lines", "surf", "faces", "quiver"}
        obsP == Concat([i \in 1..Len(Kind(items, "points")) |-> Kind(items, "points")[i].A])
        obsL == LET l == Kind(items, "lines")
                IN  Concat([i \in 1..Len(l) |-> GridLines(l[i].sh, l[i].A)])
        obsS == Kind(items, "surf")
        obsF == LET l == Kind(items, "faces")
                IN  Concat([i \in 1..Len(l) |-> [k \in 1..l[i].sh[1] |-> SubSeq(l[i].A, 12*k-11, 12*k)]])
        B == OnBackend(heap, ev)
        wh == IF ev.self = "" THEN ev.op ELSE What(heap[ev.self], ev)
        look == FirstBad(Len(items), LAMBDA i :
                    IF B = "mpl" THEN MplLook(wh, a, items[i]) ELSE LookVerdict(wh, a, items[i]))
    IN  IF B = "nul" THEN (IF Len(items) = 0 THEN "" ELSE "drawn-by-null")
        ELSE IF \E i \in 1..Len(ev.val.on) : ev.val.on[i] # B THEN "drawn-on-another-back-end"
        ELSE IF ev.val.axes > 1 THEN "drawn-on-several-axes"
        ELSE IF ~DrawnFinite(items) THEN "drawn-not-finite"
        ELSE IF ev.op = "d_quiver" THEN
            LET q == Kind(items, "quiver")
                e == TLCEval(LET P == Pad3(a.P)  V == Pad3(a.V)
                             IN  [x1 \in 1..(2*Len(P)) |-> LET i == (x1-1) \div 6  k == (x1-1) % 6
                                    IN  IF k < 3 THEN P[3*i+k+1] ELSE V[3*i+k-2]])
            IN  IF Len(items) # 1 \/ Len(q) # 1 THEN "drawn-other"
                ELSE IF Len(q[1].A) # Len(e) \/ RMismatch(q[1].A, e, 0) # 0 THEN "arrows" ELSE look
        ELSE LET o == IF ev.self = "" THEN [A |-> ev.a.P.A] ELSE heap[ev.self]
                 w == TLCEval(Drawing(o, c))
                 tol == RMul(NetTol, RMax(RMaxAbs(o.A), IF ev.self = "" THEN 0 ELSE RMaxAbs(Points(o))))
             IN  IF Len(Kind(items, "quiver")) > 0 THEN "drawn-other"
                 ELSE IF ~SamePoints(obsP, w.pts, tol) THEN "points"
                 ELSE IF ~Cover(obsL, w.lines, LAMBDA x, y : SameLine(x, y, tol)) THEN "lines"
                 ELSE IF look # "" THEN look
                 ELSE IF B = "mpl" THEN
                     (IF Len(obsS) > 0 THEN "drawn-other"
                      ELSE IF ~Cover(obsF, Concat([i \in 1..Len(w.surfs) |-> Cells(w.surfs[i])]),
                                     LAMBDA x, y : Cover(PointSet(x), PointSet(y), LAMBDA p, q : Near(p, 0, q, 0, tol)))
                           THEN "faces" ELSE "")
                 ELSE IF ~Cover(obsS, w.surfs, LAMBDA x, y : SamePatch(x, y, tol)) THEN "surfaces" ELSE ""
(* the plotters after a call that succeeds                                 *)
NextPlotters(heap, ev) ==
    CASE ev.op = "d_use" -> [heap EXCEPT ![ev.self] = [B |-> Backends[ev.a.name]]]
      [] ev.op = "d_attr" -> [heap EXCEPT ![ev.self] = [B |-> Uses(heap[ev.self].B)]]
      [] ev.op = "d_plotter" ->
            (ev.out[1] :> [B |-> IF Len(ev.a.name) = 0 THEN "" ELSE Backends[ev.a.name[1]]]) @@ heap
      [] ev.op \in PlotOps /\ ev.a.plotter # "" ->
            [heap EXCEPT ![ev.a.plotter] = [B |-> Uses(heap[ev.a.plotter].B)]]
      [] OTHER -> heap
PlotVerdict(heap, ev) ==
    IF ev.heap # NextPlotters(heap, ev) THEN
        (IF ev.op \in BackendOps THEN "wrong-backend" ELSE "drawing-changed-something")
    ELSE IF ev.op = "d_attr" THEN (IF ev.val.got = Uses(heap[ev.self].B) THEN "" ELSE "not-the-back-ends-own")
    ELSE IF ev.op = "d_fresh" THEN (IF ev.val.got = Fresh(ev.a.names, "", <<>>) THEN "" ELSE "wrong-backend")
    ELSE IF ev.op \in BackendOps THEN ""
    ELSE DrawVerdict(heap, ev)
=============================================================================
