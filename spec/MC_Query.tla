------------------------------ MODULE MC_Query ------------------------------
(***************************************************************************)
(* Questions and their answers.                                            *)
(*                                                                         *)
(* For every small object and every question of one kind - derivatives     *)
(* (What = "ders"), the lists of breaks, spans and abscissae ("asks"), the *)
(* VTK file ("vtk") - the event of an ideal answer is accepted by          *)
(* Judge!JudgeEvent (Accepting) and no event that differs from it in one   *)
(* thing is (Rejecting).  The ideal answers do not come from the           *)
(* definitions the judge uses: derivatives come from the polynomial pieces *)
(* written out in powers (by interpolation of the Cox-de Boor values), the *)
(* quotient rule for the first two orders written out and, for every       *)
(* order, the power series along straight lines through the parameter;     *)
(* lists are filtered and averaged from the knots; files are put together  *)
(* point by point.  Every question is emitted, for the real code to be     *)
(* asked it.                                                               *)
(***************************************************************************)
EXTENDS Query, CDB, Small, Json
J == INSTANCE Judge

CONSTANTS What, Dims, Degrees, Spans, Ends
VARIABLES obj, q
vars == <<obj, q>>
view == vars

Str(o) == [p |-> o.p, U |-> [b \in 1..Len(o.U) |-> Strs(o.U[b])], sh |-> o.sh, nc |-> o.nc, A |-> Strs(o.A)]
Heap0 == [n \in {"root", "x"} |-> IF n = "root" THEN "" ELSE Str(obj)]
D == Dim(obj)
Event(op, a, val) ==
    [op |-> op, self |-> "x", out |-> <<>>, pre |-> <<>>, post |-> <<>>, crash |-> "", raised |-> "",
     ret |-> "value", heap |-> Heap0, a |-> a, val |-> val]
Good(ev) == J!JudgeEvent(Heap0, ev) = ""
Bad(ev) == J!JudgeEvent(Heap0, ev) # ""
Nudge(v) == RStr(RAdd(v, "1/1000"))
Common(ev) ==                       \* of any question
    {[ev EXCEPT !.raised = "ValueError", !.ret = ""], [ev EXCEPT !.crash = "killed"], [ev EXCEPT !.ret = "other"],
     [ev EXCEPT !.post = <<"changed">>], [ev EXCEPT !.heap["x"].A[1] = Nudge(@)],
     [ev EXCEPT !.heap["x"].U[1][1] = Nudge(@)], [ev EXCEPT !.heap = @ @@ ("z" :> Str(obj))]}

----------------------------------------------------------------------------
(* polynomial pieces in powers of t, the parameter being u + t             *)
RECURSIVE PolyMul(_, _, _)          \* c times the product of (u - x_m + t), m in ms
PolyMul(c, u, xs) ==
    IF Len(xs) = 0 THEN c
    ELSE LET e == RSub(u, xs[1])
             n == Len(c)
         IN  PolyMul(TLCEval([i \in 1..(n+1) |-> RAdd(IF i <= n THEN RMul(c[i], e) ELSE 0, IF i > 1 THEN c[i-1] ELSE 0)]),
                     u, Tail(xs))
RECURSIVE Norm(_, _)
Norm(x, xs) == IF Len(xs) = 0 THEN 1 ELSE RMul(RSub(x, xs[1]), Norm(x, Tail(xs)))
Omit(s, i) == SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))
(* the d-th derivatives at u of the functions alive on u's span            *)
PolyRow(p, U, u, d) ==
    LET k == Span(p, U, u)
        x == TLCEval([i \in 1..(p+1) |-> RAdd(Kn(U, k), RMul(RDiv(i-1, p+1), RSub(Kn(U, k+1), Kn(U, k))))])
        L == TLCEval([i \in 1..(p+1) |-> RDiv((PolyMul(<<1>>, u, Omit(x, i)) \o Rep(0, 8))[d+1], Norm(x[i], Omit(x, i)))])
    IN  SRow(k-p, TLCEval([j \in 1..(p+1) |->
            RMul(Fact[d], RSum([i \in 1..(p+1) |-> RMul(L[i], CoxDeBoor(p, U, k, k-p-1+j, x[i]))]))]))
RECURSIVE PolyRec(_, _, _, _, _)
PolyRec(o, us, al, a, acc) ==
    IF a > Dim(o) THEN acc
    ELSE LET rows == TLCEval([i \in 1..Len(us[a]) |-> PolyRow(o.p[a], o.U[a], us[a][i], al[a])])
         IN  PolyRec(o, us, al, a+1, [sh |-> Put(acc.sh, a, Len(us[a])),
                                      A |-> MapAxis(acc.A, acc.sh, acc.nc, a, rows), nc |-> acc.nc])
PolyGrid(o, us, al) == PolyRec(o, us, al, 1, [sh |-> o.sh, A |-> o.A, nc |-> o.nc])

(* what is asked at: both ends, every break, one point in every span       *)
SampleAxis(p, U) ==
    LET b == Breaks(p, U)
    IN  TLCEval([i \in 1..(2*Len(b)-1) |-> IF i % 2 = 1 THEN b[(i+1) \div 2]
                                   ELSE RAdd(b[i \div 2], RMul("2/5", RSub(b[i \div 2 + 1], b[i \div 2])))])
At1 == TLCEval([a \in 1..D |-> IF D < 3 THEN SampleAxis(obj.p[a], obj.U[a])
                               ELSE LET s == SampleAxis(obj.p[a], obj.U[a]) IN <<s[2], s[Len(s)]>>])

(* the fields asked about: none, a scalar or a vector one of the caller's  *)
Given(k) == LET n == Prod(obj.sh) * (IF k = 0 THEN 1 ELSE k)
            IN  [sh |-> obj.sh \o (IF k = 0 THEN <<>> ELSE <<k>>), A |-> TLCEval([i \in 1..n |-> RStr(RDiv(((i*i*5 + i) % 17) - 6, 2))])]
DerArgs == [u |-> TLCEval([a \in 1..D |-> <<[nd |-> 1, x |-> Strs(At1[a])]>>]),
            fields |-> IF q.f = -1 THEN <<>> ELSE <<Given(q.f)>>, mapped |-> q.mapped,
            order |-> IF q.k < 3 /\ q.named THEN 0 ELSE q.k]
DerOp == IF ~q.named THEN "derivative" ELSE IF q.k = 1 THEN "gradient" ELSE "hessian"
DerEvent(val) == Event(DerOp, DerArgs, val)
DObj == DerFieldObj(obj, DerEvent(<<>>))    \* (only says what is differentiated)
Zero == [a \in 1..D |-> 0]
Ix(S) == [a \in 1..D |-> Cardinality({s \in DOMAIN S : S[s] = a})]     \* S: a tuple of axes
Np == Prod([a \in 1..D |-> Len(At1[a])])
Nf == DObj.nc - 4
(* numerator component c and denominator at point i, differentiated al times *)
Nm(H, al, i, c) == H[al][i * DObj.nc + 4 + c]
Dn(H, al, i) == H[al][i * DObj.nc + 4]
First1(H, a, i, c) ==               \* (N'W - N W') / W^2
    LET W == Dn(H, Zero, i)
    IN  RDiv(RSub(RMul(Nm(H, Ix(<<a>>), i, c), W), RMul(Nm(H, Zero, i, c), Dn(H, Ix(<<a>>), i))), RMul(W, W))
Second(H, a, b, i, c) ==
    LET W == Dn(H, Zero, i)  N0 == Nm(H, Zero, i, c)
        Wa == Dn(H, Ix(<<a>>), i)  Wb == Dn(H, Ix(<<b>>), i)
    IN  RAdd(RSub(RSub(RDiv(Nm(H, Ix(<<a, b>>), i, c), W),
                       RDiv(RAdd(RMul(Nm(H, Ix(<<a>>), i, c), Wb), RMul(Nm(H, Ix(<<b>>), i, c), Wa)), RMul(W, W))),
                  RDiv(RMul(N0, Dn(H, Ix(<<a, b>>), i)), RMul(W, W))),
             RDiv(RMul(2, RMul(N0, RMul(Wa, Wb))), RMul(W, RMul(W, W))))
HUpTo(k) == TLCEval([al \in IdxUpTo(D, k) |-> PolyGrid(DObj, At1, al).A])
(* along the line u + t h: power series of N, W and of their quotient      *)
RECURSIVE HPow(_, _, _)
HPow(h, al, a) == IF a = 0 THEN 1 ELSE RMul(RDiv(Pow(h[a], al[a]), Fact[al[a]]), HPow(h, al, a-1))
Series(k, h, f(_)) == TLCEval([n \in 1..(k+1) |->
        LET S == IdxOfOrder(D, n-1)
            RECURSIVE tot(_)
            tot(T) == IF T = {} THEN 0 ELSE LET al == CHOOSE al \in T : TRUE IN RAdd(RMul(HPow(h, al, D), f(al)), tot(T \ {al}))
        IN  tot(S)])
RECURSIVE Quot(_, _, _)
Quot(n, w, acc) ==
    IF Len(acc) = Len(n) THEN acc
    ELSE LET m == Len(acc)
         IN  Quot(n, w, Append(acc, RDiv(RSub(n[m+1], RSum([j \in 1..m |-> RMul(w[m+2-j], acc[j])])), w[1])))
Along(H, k, h, i, c) ==             \* the k-th derivative in direction h
    RMul(Fact[k], Quot(Series(k, h, LAMBDA al : Nm(H, al, i, c)), Series(k, h, LAMBDA al : Dn(H, al, i)), <<>>)[k+1])
HProd(n, k, h) ==
    LET RECURSIVE go(_, _)
        go(m, j) == IF j = 0 THEN 1 ELSE RMul(h[(m % D) + 1], go(m \div D, j-1))
    IN  go(n, k)
Contract(A, base, k, h) ==          \* sum over all direction tuples
    RSum(TLCEval([n1 \in 1..Pow(D, k) |-> RMul(A[base + n1], HProd(n1 - 1, k, h))]))
Lines(k) == {h \in [1..D -> 0..k] : TRUE}

(* what the specification says the derivatives are                         *)
SpecDer == Derivative(obj, DerEvent(<<>>))
DerivativesRight ==
    (What = "ders" /\ ~q.mapped /\ q.k \in 1..4) =>
    LET A == TLCEval(SpecDer.A)
        H == HUpTo(q.k)
        m == Pow(D, q.k)
    IN  /\ Len(A) = Np * Nf * m
        /\ \A i \in 0..(Np-1) : \A c \in 1..Nf :
            LET base == (i * Nf + c - 1) * m
            IN  /\ q.k = 1 => \A a \in 1..D : REq(A[base + a], First1(H, a, i, c))
                /\ q.k = 2 => \A a, b \in 1..D : REq(A[base + (a-1)*D + b], Second(H, a, b, i, c))
                /\ \A h \in Lines(q.k) : REq(Contract(A, base, q.k, h), Along(H, q.k, h, i, c))
(* the mapped gradient by Cramer's rule: g_r = det(J with r's row replaced *)
(* by the parametric gradient's) / det J, J[r][j] = dx_r/du_j              *)
JacAt(i) == LET g == Partials(WithFields(obj, Points(obj), 3), At1, 1)
            IN  [r \in 1..D |-> [j \in 1..D |-> g[Ix(<<j>>)][i*3 + r]]]
Det2(M) == IF D = 1 THEN M[1][1] ELSE RSub(RMul(M[1][1], M[2][2]), RMul(M[1][2], M[2][1]))
NoFold == \A i \in 0..(Np-1) : ~REq(Det2(JacAt(i)), 0)
MappedVals ==
    LET G == Derivative(obj, [DerEvent(<<>>) EXCEPT !.a.mapped = FALSE])
        Js == TLCEval([i \in 0..(Np-1) |-> JacAt(i)])
    IN  [sh |-> G.sh,
         A |-> TLCEval([x \in 1..Len(G.A) |->
            LET i == (x-1) \div (Nf*D)  r == ((x-1) % D) + 1  b == x - r
                M == [Js[i] EXCEPT ![r] = [j \in 1..D |-> G.A[b + j]]]
            IN  RDiv(Det2(M), Det2(Js[i]))])]
Answer == LET e == IF q.mapped THEN MappedVals ELSE SpecDer IN [sh |-> e.sh, A |-> Strs(e.A)]
DerAllowed == q.k \in 1..4 /\ ~(q.mapped /\ q.k > 1)
DersAccepting ==
    IF DerAllowed
    THEN (q.mapped /\ NoFold) => Good(DerEvent(<<Answer>>))
    ELSE Good([DerEvent(<<>>) EXCEPT !.raised = "ValueError", !.ret = ""])
Outside1 == [DerEvent(<<>>) EXCEPT !.a.u[1][1].x[1] = RStr(RSub(@, "1/100"))]
DersRejecting ==
    IF ~DerAllowed THEN Bad(DerEvent(<<[sh |-> <<>>, A |-> <<>>]>>))
    ELSE IF q.mapped /\ ~NoFold THEN TRUE
    ELSE LET v == TLCEval(Answer)
             ev == TLCEval(DerEvent(<<v>>))
             n == Len(v.A)
             some == {i \in 1..n : n < 10 \/ i % (n \div 8) = 0}
             step == TLCEval(RMul("1/100", RMax(1, TermScale(obj, [ev EXCEPT !.a.mapped = FALSE]))))
         IN  /\ Good(ev)
             /\ \A i \in some : Bad([ev EXCEPT !.val[1].A[i] = RStr(RAdd(@, step))])
             /\ Bad([ev EXCEPT !.val[1].A[n] = "nan"]) /\ Bad([ev EXCEPT !.val[1].A[1] = "inf"])
             /\ Bad([ev EXCEPT !.val[1].sh = Append(@, 1)]) /\ Bad([ev EXCEPT !.val[1].sh = Tail(@), !.val[1].A = SubSeq(@, 1, n-1)])
             /\ \A e \in Common(ev) : Bad(e)
             /\ Bad([Outside1 EXCEPT !.val = <<v>>]) /\ Good([Outside1 EXCEPT !.raised = "ValueError", !.ret = ""])
             /\ Good([ev EXCEPT !.val[1].A[1] = RStr(RAdd(@, "1/1000000000000"))])

----------------------------------------------------------------------------
(* the lists                                                               *)
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A n \in S : RLe(m, n) IN <<m>> \o Listed(S \ {m})
SetOf(s) == {s[i] : i \in 1..Len(s)}
LoU(a) == obj.U[a][obj.p[a] + 1]
HiU(a) == obj.U[a][Len(obj.U[a]) - obj.p[a]]
BrkList(a) == Listed({x \in SetOf(obj.U[a]) : RLe(LoU(a), x) /\ RLe(x, HiU(a))})
TimesIn(a, x) == Cardinality({i \in 1..Len(obj.U[a]) : REq(obj.U[a][i], x)})
RECURSIVE Between(_, _, _)          \* every span's nodes, given as fractions strictly inside
Between(b, fr, i) ==
    IF i = Len(b) THEN <<b[i]>>
    ELSE <<b[i]>> \o [k \in 1..Len(fr) |-> RAdd(b[i], RMul(fr[k], RSub(b[i+1], b[i])))] \o Between(b, fr, i+1)
R5 == "0.44721359549995793928"      \* 1/sqrt 5
R7 == "0.65465367070797714380"      \* sqrt(3/7)
HalfOf(x) == RDiv(RAdd(1, x), 2)
LobFr(p) == CASE p = 1 -> <<>> [] p = 2 -> <<"1/2">> [] p = 3 -> <<HalfOf(RNeg(R5)), HalfOf(R5)>>
              [] OTHER -> <<HalfOf(RNeg(R7)), "1/2", HalfOf(R7)>>
Ans(op, a) ==
    LET p == obj.p[a]  U == obj.U[a] IN
    CASE op = "breaks" -> BrkList(a)
      [] op = "spans" -> Listed({k \in p..(Len(U)-p-2) : RLt(U[k+1], U[k+2])})
      [] op = "greville" -> [i \in 1..(Len(U)-p-1) |-> RDiv(RSum([j \in 1..p |-> U[i+j]]), p)]
      [] op = "lagrange" -> Between(BrkList(a), [k \in 1..(p-1) |-> RDiv(k, p)], 1)
      [] op = "lobatto" -> Between(BrkList(a), LobFr(p), 1)
AskAxes == IF q.axis = 99 THEN 1..D ELSE {IF q.axis < 0 THEN q.axis + D + 1 ELSE q.axis + 1}
AskList(f(_)) == LET as == Listed(AskAxes) IN [i \in 1..Len(as) |-> Strs(f(as[i]))]
AskEvent ==
    Event(q.op, [axis |-> IF q.axis = 99 THEN <<>> ELSE <<q.axis>>, mults |-> q.mults],
          [u |-> AskList(LAMBDA a : Ans(q.op, a)),
           s |-> IF q.mults THEN AskList(LAMBDA a : [i \in 1..Len(BrkList(a)) |-> LET t == TimesIn(a, BrkList(a)[i]) IN IF t < obj.p[a] THEN t ELSE obj.p[a]])
                 ELSE <<>>])
AskAllowed == q.axis = 99 \/ q.axis \in (-D)..(D-1)
AskRefused == Event(q.op, [axis |-> <<q.axis>>, mults |-> q.mults], [none |-> 0])
AsksAccepting ==
    IF AskAllowed THEN Good(AskEvent)
    ELSE Good([AskRefused EXCEPT !.raised = "ValueError", !.ret = ""])
AsksRejecting ==
    IF ~AskAllowed THEN Bad([AskRefused EXCEPT !.val = [u |-> <<>>, s |-> <<>>]])
    ELSE LET ev == TLCEval(AskEvent)
             n(i) == Len(ev.val.u[i])
         IN  /\ \A e \in Common(ev) : Bad(e)
             /\ \A i \in 1..Len(ev.val.u) : \A k \in 1..n(i) : Bad([ev EXCEPT !.val.u[i][k] = Nudge(@)])
             /\ \A i \in 1..Len(ev.val.u) : /\ Bad([ev EXCEPT !.val.u[i] = Tail(@)]) /\ Bad([ev EXCEPT !.val.u[i] = Append(@, @[n(i)])])
                                            /\ n(i) > 1 => Bad([ev EXCEPT !.val.u[i] = <<@[2], @[1]>> \o SubSeq(@, 3, n(i))])
             /\ Bad([ev EXCEPT !.val.u = Append(@, @[1])])
             /\ (D > 1 /\ q.axis = 99 /\ ev.val.u[1] # ev.val.u[2]) => Bad([ev EXCEPT !.val.u = <<@[2], @[1]>> \o SubSeq(@, 3, Len(@))])
             /\ q.mults => /\ \A i \in 1..Len(ev.val.s) : \A k \in 1..Len(ev.val.s[i]) : Bad([ev EXCEPT !.val.s[i][k] = RStr(RAdd(@, 1))])
                           /\ Bad([ev EXCEPT !.val.s = <<>>])

----------------------------------------------------------------------------
(* VTK files                                                               *)
Grid1(a) == LET b == Breaks(obj.p[a], obj.U[a])
            IN  IF q.smp = "breaks" THEN b
                ELSE [i \in 1..(a+1) |-> RAdd(b[1], RMul(RDiv(i-1, a), RSub(b[Len(b)], b[1])))]    \* 2, 3, 4 points
Dims3 == [a \in 1..3 |-> IF a <= D THEN Len(Grid1(a)) ELSE 1]
PointAt(t) == CDBGrid(obj, [a \in 1..D |-> <<Grid1(a)[t[a]]>>]).A      \* homogeneous
RECURSIVE Filed(_)                  \* the points in the file's order, first axis fastest
Filed(a) == IF a = 0 THEN <<<<>>>>
            ELSE LET below == Filed(a-1)  n == Len(below)
                 IN  [x \in 1..(n * Len(Grid1(a))) |-> Append(below[((x-1) % n) + 1], ((x-1) \div n) + 1)]
Flat(s, k) == [i \in 1..(k*Len(s)) |-> s[((i-1) \div k) + 1][((i-1) % k) + 1]]
Comps(h, cs) == [i \in 1..Len(cs) |-> IF cs[i] = 0 THEN "0" ELSE RStr(RDiv(h[cs[i]], h[4]))]
VArgs == [control |-> q.control, fields |-> "none", F |-> [sh |-> <<>>, A |-> <<>>],
          u |-> [a \in 1..D |-> Strs(Grid1(a))], title |-> "VTK Data", bytes |-> <<>>,
          scalars |-> IF q.data THEN <<[name |-> "T x", fname |-> "T_x", index |-> <<1>>], [name |-> "s", fname |-> "s", index |-> <<-2>>]>> ELSE <<>>,
          vectors |-> IF q.data THEN <<[name |-> "v", fname |-> "v", index |-> <<1, 0>>]>> ELSE <<>>]
VVal ==
    LET hs == TLCEval([x \in 1..Prod([a \in 1..D |-> Len(Grid1(a))]) |-> PointAt(Filed(D)[x])])
        N == Len(hs)
        part(cs) == Flat([x \in 1..N |-> Comps(hs[x], cs)], Len(cs))
    IN  [error |-> "", version |-> "2.0", format |-> "BINARY", title |-> "VTK Data",
         dataset |-> IF q.control THEN "STRUCTURED_GRID" ELSE "RECTILINEAR_GRID",
         dims |-> Dims3, points |-> IF q.control THEN part(<<1, 2, 3>>) ELSE <<>>,
         coords |-> IF q.control THEN <<>> ELSE [a \in 1..3 |-> IF a <= D THEN Strs(Grid1(a)) ELSE <<"0">>],
         npoints |-> IF q.data THEN N ELSE 0,
         data |-> IF ~q.data THEN <<>>
                  ELSE <<[kind |-> "SCALARS", name |-> "T_x", x |-> part(<<6>>)],     \* fields are components 5, 6
                         [kind |-> "SCALARS", name |-> "s", x |-> part(<<5>>)],
                         [kind |-> "VECTORS", name |-> "v", x |-> part(<<6, 5, 0>>)]>>]
VEvent == Event("v_write", VArgs, VVal)
VtkAccepting == Good(VEvent)
Few(n) == {k \in 1..n : n < 24 \/ k % 5 = 1}
VtkRejecting ==
    LET ev == TLCEval(VEvent)
        v == ev.val
        swap(s, i, k) == [j \in 1..Len(s) |-> IF j <= k THEN s[i*k + j] ELSE IF j > i*k /\ j <= (i+1)*k THEN s[j - i*k] ELSE s[j]]
    IN  /\ \A e \in Common(ev) : Bad(e)
        /\ \A k \in Few(Len(v.points)) : Bad([ev EXCEPT !.val.points[k] = Nudge(@)])
        /\ \A i \in 1..(Len(v.points) \div 3 - 1) :
              swap(v.points, i, 3) # v.points => Bad([ev EXCEPT !.val.points = swap(@, i, 3)])
        /\ \A s \in 1..Len(v.data) :
              /\ \A k \in Few(Len(v.data[s].x)) : Bad([ev EXCEPT !.val.data[s].x[k] = Nudge(@)])
              /\ Bad([ev EXCEPT !.val.data[s].name = "other"]) /\ Bad([ev EXCEPT !.val.data = Omit(@, s)])
              /\ Bad([ev EXCEPT !.val.data[s].kind = IF @ = "SCALARS" THEN "VECTORS" ELSE "SCALARS"])
              /\ Bad([ev EXCEPT !.val.data[s].x = Tail(@)])
        /\ Len(v.data) > 0 => Bad([ev EXCEPT !.val.npoints = @ + 1]) /\ Bad([ev EXCEPT !.val.data = <<@[2], @[1], @[3]>>])
        /\ \A a \in 1..3 : Bad([ev EXCEPT !.val.dims[a] = @ + 1])
        /\ (D > 1 /\ Dims3[1] # Dims3[2]) => Bad([ev EXCEPT !.val.dims = <<@[2], @[1], @[3]>>])
        /\ \A a \in 1..Len(v.coords) : \A k \in 1..Len(v.coords[a]) : Bad([ev EXCEPT !.val.coords[a][k] = Nudge(@)])
        /\ Bad([ev EXCEPT !.val.error = "cut"]) /\ Bad([ev EXCEPT !.val.format = "ASCII"]) /\ Bad([ev EXCEPT !.val.title = ""])
        /\ Bad([ev EXCEPT !.val.dataset = IF q.control THEN "RECTILINEAR_GRID" ELSE "STRUCTURED_GRID"])

----------------------------------------------------------------------------
Accepting == CASE What = "ders" -> DersAccepting [] What = "asks" -> AsksAccepting [] OTHER -> VtkAccepting
Rejecting == CASE What = "ders" -> DersRejecting [] What = "asks" -> AsksRejecting [] OTHER -> VtkRejecting

(* weights that never vanish, a field of two components                    *)
Plain(o) == [o EXCEPT !.A = TLCEval([i \in 1..Len(o.A) |-> IF ((i-1) % o.nc) + 1 = 4 THEN (IF i % 3 = 0 THEN 2 ELSE 1) ELSE @[i]])]
Objects(d) ==
    LET S == IF d = 1 THEN SpacesOf(Degrees, Spans, Ends)
             ELSE IF d = 2 THEN SpacesOf(Degrees, {1}, "clamped") \cup SpacesOf({1}, Spans, Ends)
             ELSE SpacesOf({1}, {1}, "clamped") \cup SpacesOf({2}, {1}, "clamped")
    IN  {Plain(ObjOn(s, nc, 0)) : s \in [1..d -> S], nc \in IF What = "vtk" THEN {6} ELSE IF What = "asks" THEN {4} ELSE {4, 5}}
Questions(d) ==
    CASE What = "ders" ->
           {[k |-> k, f |-> f, mapped |-> m, named |-> n] :
              <<k, f, m, n>> \in {t \in (0..5) \X {-1, 0, 2} \X BOOLEAN \X BOOLEAN :
                    /\ t[4] => t[1] \in {1, 2}              \* gradient, hessian have no order argument
                    /\ t[3] => d < 3 /\ t[1] \in {1, 2} /\ ~(t[4] /\ t[1] = 2)
                    /\ d > 1 => t[1] <= 3 /\ (t[1] = 3 => ~t[4] /\ t[2] = -1)
                    /\ d > 2 => t[1] \in 1..2 /\ t[2] = -1}}
      [] What = "asks" ->
           {[op |-> op, axis |-> a, mults |-> m] :
              <<op, a, m>> \in {t \in {"breaks", "spans", "greville", "lagrange", "lobatto"} \X (((-d-1)..d) \cup {99}) \X BOOLEAN :
                    t[3] => t[1] = "breaks"}}
      [] OTHER -> [control : BOOLEAN, data : BOOLEAN, smp : {"breaks", "even"}]
Init == /\ \E d \in Dims : obj \in Objects(d)
        /\ q \in Questions(Dim(obj))
        /\ Emit(ToJson([obj |-> ObjStrs(obj), sh |-> obj.sh, q |-> q,
                        u |-> IF What = "ders" THEN [a \in 1..D |-> Strs(At1[a])] ELSE <<>>,
                        F |-> IF What = "ders" THEN (IF q.f >= 0 THEN <<Given(q.f)>> ELSE <<>>) ELSE <<>>]))
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
