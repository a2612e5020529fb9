------------------------------- MODULE MC_Plot -------------------------------
(***************************************************************************)
(* Drawing, twice.                                                         *)
(*                                                                         *)
(* Histories (Mode = "history"): several plotters, as they are made: a     *)
(* shared table of the back ends loaded so far, and in every plotter a     *)
(* reference or none.  Checked against the effects Plot demands of the     *)
(* calls (Follows), and against what a user would say (LastWins): a        *)
(* plotter uses what it was last told to use, whatever happened to others  *)
(* and whatever was refused.  Every history is emitted for replay.         *)
(*                                                                         *)
(* Drawings (Mode = "drawing"): for every small object, kind of drawing    *)
(* and back end, the event of a drawing put together point by point - each *)
(* point evaluated by the Cox-de Boor recursion at explicit parameters,    *)
(* edges and faces as the object at the ends of its axes - is accepted by  *)
(* Judge!JudgeEvent (Accepting), and no event that differs from it in one  *)
(* thing is (Rejecting): a point moved, a line missing or added, another   *)
(* look, another back end, the object changed.                             *)
(***************************************************************************)
EXTENDS Plot, CDB, Small, Json
J == INSTANCE Judge

CONSTANTS Mode, Depth, Names, Dims, Degrees, Spans
VARIABLES table, ref,   \* loaded back ends; plotter -> back end or ""
          heap,         \* the plotters, by the demanded effects
          path, obj, draw
vars == <<table, ref, heap, path, obj, draw>>
view == vars

----------------------------------------------------------------------------
(* histories                                                               *)
Says == {"mpl", "mayavi", "none", "gnuplot"}
Load(b) == table' = table \cup {b}
Told(c, raised) == /\ path' = Append(path, [op |-> c.op, self |-> c.self, name |-> c.name, ok |-> ~raised])
                   /\ heap' = IF raised THEN heap ELSE NextPlotters(heap, c.ev)
                   /\ UNCHANGED <<obj, draw>>
                   /\ IF Len(path) + 1 = Depth THEN Emit(ToJson(path')) ELSE TRUE
Ev(op, n, name) == [op |-> op, self |-> n, name |-> name,
                    ev |-> [op |-> op, self |-> IF op = "d_points" THEN "" ELSE n,
                            a |-> [name |-> name, plotter |-> n]]]
Use(n, name) ==
    IF name \in DOMAIN Backends
    THEN Load(Backends[name]) /\ ref' = [ref EXCEPT ![n] = Backends[name]] /\ Told(Ev("d_use", n, name), FALSE)
    ELSE UNCHANGED <<table, ref>> /\ Told(Ev("d_use", n, name), TRUE)
Need(n) == IF ref[n] = "" THEN Load(Default) /\ ref' = [ref EXCEPT ![n] = Default] ELSE UNCHANGED <<table, ref>>
Draws(n) == Need(n) /\ Told(Ev("d_points", n, ""), FALSE)
Ask(n) == Need(n) /\ Told(Ev("d_attr", n, "line3d"), FALSE)

Follows == \A n \in Names : heap[n].B = ref[n]
RECURSIVE Last(_, _)
Last(n, k) ==                       \* of the first k calls
    IF k = 0 THEN "" ELSE
    LET c == path[k] IN
    IF c.self # n \/ ~c.ok THEN Last(n, k-1)
    ELSE IF c.op = "d_use" THEN Backends[c.name]
    ELSE Uses(Last(n, k-1))
LastWins == Mode = "history" => \A n \in Names : ref[n] = Last(n, Len(path))
Loaded == \A n \in Names : ref[n] # "" => ref[n] \in table

----------------------------------------------------------------------------
(* drawings                                                                *)
Kinds == {"d_cpoint", "d_cwire", "d_kpoint", "d_kwire", "d_ksurf", "d_curve", "d_surface", "d_volume",
          "d_plot", "d_cplot", "d_kplot"}
Objects(d) ==
    LET S == IF d = 1 THEN SpacesOf(Degrees, {1, 2}, "two") ELSE SpacesOf({1}, Spans, "clamped") \cup SpacesOf(Degrees, {1}, "clamped")
        plain(q) == [q EXCEPT !.A = TLCEval([i \in 1..Len(q.A) |-> IF ((i-1) % q.nc) + 1 = 4 THEN (IF i % 3 = 0 THEN 2 ELSE 1) ELSE RDiv(i*i % 97, 4)])]
    IN  {plain(ObjOn(s, 4, 0)) : s \in [1..d -> S]}
Str(q) == [p |-> q.p, U |-> [b \in 1..Len(q.U) |-> Strs(q.U[b])], sh |-> q.sh, nc |-> q.nc, A |-> Strs(q.A)]
R1 == 3  R2 == 2
Heap0 == [n \in {"root", "x"} |-> IF n = "root" THEN "" ELSE Str(obj)]

(* the point at parameters us (one per axis), as a sequence of 3           *)
At(us) == LET g == CDBGrid(obj, [a \in 1..Len(us) |-> <<us[a]>>]).A
          IN  [c \in 1..3 |-> RStr(RDiv(g[c], g[4]))]
From(a) == Lo(obj.p[a], obj.U[a])
To(a) == Hi(obj.p[a], obj.U[a])
Frac(a, k, n) == RAdd(From(a), RMul(RSub(To(a), From(a)), RDiv(k-1, n-1)))
Brk(a) == Breaks(obj.p[a], obj.U[a])
Flat(s) == [i \in 1..(3*Len(s)) |-> s[((i-1) \div 3) + 1][((i-1) % 3) + 1]]
D == Dim(obj)
NetPoint(i) ==                      \* i: a multi-index, from 1
    LET RECURSIVE at(_)
        at(a) == IF a = 0 THEN 0 ELSE at(a-1) * obj.sh[a] + i[a] - 1
        k == 4 * at(D)
    IN  [c \in 1..3 |-> RStr(RDiv(obj.A[k+c], obj.A[k+4]))]
Box(n) == {t \in [1..Len(n) -> 1..10] : \A a \in 1..Len(n) : t[a] <= n[a]}
Without(a) == {t \in Box([b \in 1..D |-> IF b = a THEN 1 ELSE obj.sh[b]]) : TRUE}
Line(pts) == [kind |-> "lines", sh |-> <<Len(pts)>>, A |-> Flat(pts)]
Listed(S) == LET RECURSIVE go(_)
                 go(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o go(T \ {x})
             IN  go(S)
PointsItem(S) == <<[kind |-> "points", sh |-> <<Cardinality(S)>>, A |-> Flat(Listed(S))]>>
NetItems == Listed({Line([j \in 1..obj.sh[a] |-> NetPoint([t EXCEPT ![a] = j])]) : <<a, t>> \in UNION {{a} \X Without(a) : a \in 1..D}})
(* the rows along axis a of the grid of all breaks                         *)
Others(a) == {t \in Box([b \in 1..D |-> IF b = a THEN 1 ELSE Len(Brk(b))]) : TRUE}
KnotItems(axs) == Listed({Line([j \in 1..R1 |-> At([b \in 1..D |-> IF b = a THEN Frac(a, j, R1) ELSE Brk(b)[t[b]]])])
                            : <<a, t>> \in UNION {{a} \X Others(a) : a \in axs}})
KnotPoints == {At([b \in 1..D |-> Brk(b)[t[b]]]) : t \in Box([b \in 1..D |-> Len(Brk(b))])}
(* an edge: one axis runs, the others are at one of their ends             *)
Ends(a) == {t \in Box([b \in 1..D |-> IF b = a THEN 1 ELSE 2]) : TRUE}
EdgeItems == Listed({Line([j \in 1..R1 |-> At([b \in 1..D |-> IF b = a THEN Frac(a, j, R1) ELSE IF t[b] = 1 THEN From(b) ELSE To(b)])])
                       : <<a, t>> \in UNION {{a} \X Ends(a) : a \in 1..D}})
(* the patch where axes b < c run and the others (at most one) are at u    *)
Patch(b, c, u) ==
    [kind |-> "surf", sh |-> <<R2, R2>>,
     A |-> Flat([k \in 1..(R2*R2) |-> At([x \in 1..D |-> IF x = b THEN Frac(b, ((k-1) \div R2) + 1, R2)
                                                         ELSE IF x = c THEN Frac(c, ((k-1) % R2) + 1, R2) ELSE u])])]
Rest(a) == IF a = 1 THEN <<2, 3>> ELSE IF a = 2 THEN <<1, 3>> ELSE <<1, 2>>
FaceItems == IF D = 2 THEN <<Patch(1, 2, 0)>>
             ELSE Listed({Patch(Rest(a)[1], Rest(a)[2], e) : <<a, e>> \in UNION {{a} \X {From(a), To(a)} : a \in 1..3}})
KnotPatches(axs) ==                 \* of a surface they are lines, of a curve points
    Listed(UNION {{IF D = 3 THEN Patch(Rest(a)[1], Rest(a)[2], Brk(a)[k])
                   ELSE IF D = 2 THEN [kind |-> "surf", sh |-> <<R2>>,
                        A |-> Flat([j \in 1..R2 |-> At([b \in 1..2 |-> IF b = a THEN Brk(a)[k] ELSE Frac(b, j, R2)])])]
                   ELSE [kind |-> "surf", sh |-> <<>>, A |-> At(<<Brk(1)[k]>>)]
                   : k \in 1..Len(Brk(a))} : a \in axs})
(* matplotlib is given the four corners of every cell                      *)
CellsOf(s) == [kind |-> "faces", sh |-> <<1>>,     \* R2 = 2: one cell
               A |-> LET q(k) == SubSeq(s.A, 3*k-2, 3*k) IN q(2) \o q(1) \o q(3) \o q(4)]
Part2(w) == CASE w = "d_plot" -> (CASE D = 1 -> "d_curve" [] D = 2 -> "d_surface" [] OTHER -> "d_volume") [] OTHER -> w
Items(w0, axs) ==
    LET w == Part2(w0)
        net == {NetPoint(t) : t \in Box(obj.sh)}
    IN  CASE w = "d_cpoint" -> PointsItem(net)
          [] w = "d_cwire" -> NetItems
          [] w = "d_cplot" -> PointsItem(net) \o NetItems
          [] w = "d_kpoint" -> PointsItem(KnotPoints)
          [] w = "d_kwire" -> KnotItems(axs)
          [] w = "d_kplot" -> PointsItem(KnotPoints) \o KnotItems(1..D)
          [] w = "d_ksurf" -> KnotPatches(axs)
          [] w = "d_curve" -> EdgeItems
          [] w = "d_surface" -> IF D < 2 THEN <<>> ELSE FaceItems
          [] w = "d_volume" -> IF D < 3 THEN <<>> ELSE FaceItems

Red == "1 0 0"  Green == "0 1 0"  Blue == "0 0 1"  YellowC == "1 1 0"
LookFor(w0, k, B) ==
    LET w == Part2(w0)
        cl == CASE w \in {"d_cpoint"} -> Red [] w = "d_cplot" -> (IF k = "points" THEN Red ELSE Blue)
                [] w = "d_cwire" -> Blue [] w \in {"d_kpoint", "d_kwire", "d_kplot", "d_ksurf"} -> Green [] OTHER -> YellowC
        tubes == w = "d_curve"
    IN  IF B = "mpl"
        THEN [color |-> cl, mode |-> IF k = "points" THEN (IF w \in {"d_kpoint", "d_kplot"} THEN "s" ELSE "o")
                                     ELSE IF k = "faces" THEN "plain" ELSE "",
              rep |-> "", tube |-> "", rest |-> <<>>, scale |-> "1"]
        ELSE [color |-> cl, mode |-> IF k # "points" THEN "" ELSE IF w \in {"d_kpoint", "d_kplot"} THEN "cube" ELSE "sphere",
              rep |-> CASE k = "lines" -> (IF tubes THEN "surface" ELSE "wireframe") [] k = "surf" -> "surface" [] OTHER -> "",
              tube |-> IF k = "lines" /\ ~tubes THEN "None" ELSE "", rest |-> <<>>,
              scale |-> IF k # "points" THEN "1" ELSE IF w \in {"d_kpoint", "d_kplot"} THEN "0.1" ELSE "0.125"]
AxesGiven == IF draw.axes = 0 THEN <<>> ELSE <<<<draw.axes - 1>>>>
AxesUsed == IF draw.axes = 0 THEN 1..D ELSE {draw.axes}
Ideal ==
    LET B == draw.B
        its == TLCEval(Items(draw.op, AxesUsed))
        real(x) == IF B = "mpl" /\ x.kind = "surf" THEN CellsOf(x) ELSE x
        (* matplotlib draws nothing of what is not a surface patch          *)
        kept == SelectSeq(its, LAMBDA x : ~(B = "mpl" /\ x.kind = "surf" /\ Len(x.sh) # 2))
    IN  [op |-> draw.op, self |-> "x", out |-> <<>>, pre |-> <<>>, post |-> <<>>, crash |-> "", raised |-> "", ret |-> "value",
         heap |-> Heap0,
         a |-> [backend |-> B, plotter |-> "", mode |-> "", axes |-> AxesGiven, res1 |-> R1, res2 |-> R2,
                kw |-> [color |-> "", rep |-> "", tube |-> "", rest |-> <<>>, scaled |-> FALSE]],
         val |-> [on |-> IF Len(kept) = 0 THEN <<>> ELSE <<B>>, axes |-> IF B = "mpl" /\ Len(kept) > 0 THEN 1 ELSE 0,
                  items |-> [i \in 1..Len(kept) |-> LET x == real(kept[i])
                                IN  [kind |-> x.kind, sh |-> x.sh, A |-> x.A, look |-> LookFor(draw.op, x.kind, B)]]]]
Good(ev) == J!JudgeEvent(Heap0, ev) = ""
Nudge(v) == RStr(RAdd(v, "1/1000"))
Accepting == Mode = "drawing" => Good(Ideal)
Some(n) == {k \in 1..n : n < 30 \/ k % 7 = 1}
Mutants ==
    LET ev == Ideal  v == ev.val  n == Len(v.items)
        S == 1..n
    IN  {[ev EXCEPT !.val.items[i].A[k] = Nudge(@)] : <<i, k>> \in UNION {{i} \X Some(Len(v.items[i].A)) : i \in S}}
        \cup {[ev EXCEPT !.val.items = SubSeq(@, 1, i-1) \o SubSeq(@, i+1, n)] : i \in S}
        \cup {[ev EXCEPT !.val.items = Append(@, [v.items[i] EXCEPT !.A = [k \in 1..Len(@) |-> RStr(RAdd(@[k], 1))]])] : i \in S}
        \cup {[ev EXCEPT !.val.items[i].look.color = "0.5 0 0"] : i \in {i \in S : v.items[i].kind # "faces"}}
        \cup {[ev EXCEPT !.val.items[i].look.mode = IF v.items[i].kind = "faces" THEN "mapped" ELSE "cone"] : i \in {i \in S : ~(draw.B = "mpl" /\ v.items[i].kind = "lines")}}
        \cup {[ev EXCEPT !.val.items[i].A[1] = "nan"] : i \in S}
        \cup (IF draw.B = "rec" THEN {[ev EXCEPT !.val.items[i].look.rep = "points"] : i \in S}
                                \cup {[ev EXCEPT !.val.items[i].look.rest = <<"opacity=0.5">>] : i \in S}
                                \cup {[ev EXCEPT !.val.items[i].look.scale = "0.5"] : i \in S} ELSE {})
        \cup {[ev EXCEPT !.val.on = <<"nul">>], [ev EXCEPT !.heap["x"].A[1] = Nudge(@)], [ev EXCEPT !.raised = "ValueError"],
              [ev EXCEPT !.crash = "killed"], [ev EXCEPT !.val.axes = 2], [ev EXCEPT !.ret = "other"],
              [ev EXCEPT !.post = <<"changed">>]}
Rejecting == Mode = "drawing" => \A ev \in Mutants : ~Good(ev)

----------------------------------------------------------------------------
NoObj == [p |-> <<>>, U |-> <<>>, sh |-> <<>>, nc |-> 4, A |-> <<0, 0, 0, 1>>]
Init == IF Mode = "history"
        THEN /\ table = {} /\ ref = [n \in Names |-> ""] /\ heap = [n \in Names |-> [B |-> ""]]
             /\ path = <<>> /\ obj = NoObj /\ draw = [op |-> "", B |-> "", axes |-> 0]
        ELSE /\ table = {} /\ ref = [n \in Names |-> ""] /\ heap = [n \in Names |-> [B |-> ""]] /\ path = <<>>
             /\ \E d \in Dims : obj \in Objects(d)
             /\ draw \in [op : Kinds, B : {"rec", "mpl"}, axes : 0..3]
             /\ draw.axes <= Dim(obj)
             /\ (draw.axes > 0 => draw.op \in {"d_kwire", "d_ksurf"})
Next == /\ Mode = "history" /\ Len(path) < Depth
        /\ \E n \in Names : Draws(n) \/ Ask(n) \/ \E s \in Says : Use(n, s)
Spec == Init /\ [][Next]_vars
=============================================================================
