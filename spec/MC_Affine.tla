------------------------------ MODULE MC_Affine ------------------------------
(***************************************************************************)
(* The transform class.  Beside the matrices of Affine.tla, each transform *)
(* carries the list of maps it stands for, each applied to a point by its  *)
(* geometric definition (rotations by the cross product formula) without   *)
(* any matrix; undoing is the list reversed with every map undone.         *)
(* Invariants: the matrices act on points, of any weight, as the lists do; *)
(* lengths and orientation are what rotations keep; the forms of an        *)
(* argument (number, short vector, one axis counted either way) agree.     *)
(***************************************************************************)
EXTENDS Affine, Json

CONSTANTS Depth, Names, Args

VARIABLES mats,     \* name -> matrix
          means,    \* name -> list of maps, the first applied first
          path
vars == <<mats, means, path>>
view == <<mats, means, IF Len(path) = 0 THEN <<>> ELSE <<path[Len(path)]>>, Len(path)>>

(* Maps: [k, v, ang]: "t" translate by v, "s" scale by v, "r" turn by ang  *)
(* about the direction v, "h" x1 += v1*x2, x3 += v2*x1, in that order;     *)
(* "g" the same undone.                                                    *)
S(v) == [i \in 1..Len(v) |-> RStr(v[i])]
Map(k, v, ang) == [k |-> k, v |-> S(v), ang |-> RStr(ang)]
Cross(a, b) == <<RSub(RMul(a[2], b[3]), RMul(a[3], b[2])),
                 RSub(RMul(a[3], b[1]), RMul(a[1], b[3])),
                 RSub(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
Dot(a, b) == RAdd(RMul(a[1], b[1]), RAdd(RMul(a[2], b[2]), RMul(a[3], b[3])))
Comb(a, x, b, y) == [i \in 1..3 |-> RAdd(RMul(a, x[i]), RMul(b, y[i]))]
Turn(v, ang, x) ==                      \* the part along v stays, the rest turns towards v x rest
    LET vv == Dot(v, v)
        along == Comb(RDiv(Dot(v, x), vv), v, 0, v)
        rest == Comb(1, x, -1, along)
        side == Comb(RDiv(1, Sqrt(vv)), Cross(v, rest), 0, v)
        cs == TLCEval(CosSin(ang))
    IN  TLCEval(Comb(1, along, 1, Comb(cs[1], rest, cs[2], side)))
Do(m, x) ==                             \* on a point of space
    CASE m.k = "t" -> Comb(1, x, 1, m.v)
      [] m.k = "s" -> [i \in 1..3 |-> RMul(m.v[i], x[i])]
      [] m.k = "r" -> Turn(m.v, m.ang, x)
      [] m.k = "h" -> LET y == RAdd(x[1], RMul(m.v[1], x[2])) IN <<y, x[2], RAdd(x[3], RMul(m.v[2], y))>>
      [] m.k = "g" -> <<RSub(x[1], RMul(m.v[1], x[2])), x[2], RSub(x[3], RMul(m.v[2], x[1]))>>
RECURSIVE DoAll(_, _)
DoAll(ms, x) == IF Len(ms) = 0 THEN x ELSE DoAll(Tail(ms), TLCEval(Do(Head(ms), x)))
Back(m) == CASE m.k = "t" -> Map("t", [i \in 1..3 |-> RNeg(m.v[i])], 0)
             [] m.k = "s" -> Map("s", [i \in 1..3 |-> RDiv(1, m.v[i])], 0)
             [] m.k = "r" -> Map("r", m.v, RNeg(m.ang))
             [] m.k = "h" -> Map("g", m.v, 0)
             [] m.k = "g" -> Map("h", m.v, 0)
Undo(ms) == [i \in 1..Len(ms) |-> Back(ms[Len(ms) + 1 - i])]

(* the inverse matrix, by minors                                           *)
InvMat(M) ==
    LET D == TLCEval(Det4(M))
    IN  TLCEval([x \in 1..16 |-> LET i == ((x-1) \div 4) + 1  j == ((x-1) % 4) + 1
                                     m == Minor4(M, j, i)
                                 IN  RDiv(IF (i + j) % 2 = 0 THEN m ELSE RNeg(m), D)])
ShearMat(v) == <<1, v[1], 0, 0,  0, 1, 0, 0,  v[2], RMul(v[1], v[2]), 1, 0,  0, 0, 0, 1>>

(* Arguments                                                               *)
Num(x) == [nd |-> 0, x |-> S(<<x>>)]
Vec(s) == [nd |-> 1, x |-> S(s)]
Many == Args = "many"
Axes == {<<>>} \cup {<<i>> : i \in -3..2}
Moves == {[d |-> Num(2), axis |-> a] : a \in Axes}
         \cup {[d |-> Vec(s), axis |-> <<>>] : s \in {S(<<1>>), S(<<1, "-1/2">>), S(<<4, 2, 3>>)}}
         \cup (IF Many THEN {[d |-> Vec(<<>>), axis |-> <<>>]} ELSE {})
Angles == {"157079632679489661923132169163975144/100000000000000000000000000000000000", "3/10"} \cup (IF Many THEN {"0", "-4", "1/1000", "7"} ELSE {})
Dirs == {Num(i) : i \in -3..2} \cup {Vec(s) : s \in {<<1, 1, 1>>, <<0, -2, 0>>}}
        \cup (IF Many THEN {Vec(<<2>>), Vec(<<0, 3>>), Vec(<<"3/10", -2, "1/2">>)} ELSE {})
Few == {[d |-> Num(2), axis |-> <<-1>>], [d |-> Vec(<<1, "-1/2">>), axis |-> <<>>]}
FewTurns == {<<"3/10", Num(-2)>>, <<"157079632679489661923132169163975144/100000000000000000000000000000000000", Vec(<<1, 1, 1>>)>>}
Ms == IF Args = "few" THEN Few ELSE Moves
Dir(ax) == IF ax.nd = 1 THEN ax ELSE [ax EXCEPT !.x = <<CHOOSE i \in -3..2 : RStr(i) = ax.x[1]>>]
Turns == IF Args = "few" THEN FewTurns ELSE Angles \X Dirs

DispMap(c, none) ==                     \* the vector a displacement or factor stands for
    IF c.d.nd = 1 THEN [i \in 1..3 |-> IF i <= Len(c.d.x) THEN c.d.x[i] ELSE none]
    ELSE IF Len(c.axis) = 0 THEN IF none = 1 THEN [i \in 1..3 |-> c.d.x[1]] ELSE <<c.d.x[1], 0, 0>>
    ELSE LET k == IF c.axis[1] < 0 THEN 4 + c.axis[1] ELSE 1 + c.axis[1]
         IN  [i \in 1..3 |-> IF i = k THEN c.d.x[1] ELSE none]
DirVec(ax) == IF ax.nd = 1 THEN [i \in 1..3 |-> IF i <= Len(ax.x) THEN ax.x[i] ELSE 0]
              ELSE LET k == IF ax.x[1] < 0 THEN 4 + ax.x[1] ELSE 1 + ax.x[1]
                   IN  [i \in 1..3 |-> IF i = k THEN 1 ELSE 0]

None == [none |-> 0]
Canon(M) == TLCEval(S(M))
Change(x, op, a, L, ms) ==
    /\ mats' = [mats EXCEPT ![x] = Canon(MatMul4(L, @))]
    /\ means' = [means EXCEPT ![x] = @ \o ms]
    /\ path' = Append(path, [op |-> op, self |-> x, out |-> "", a |-> a])
Made(y, x, op, a, M, ms) ==
    /\ mats' = [n \in DOMAIN mats \cup {y} |-> IF n = y THEN Canon(M) ELSE mats[n]]
    /\ means' = [n \in DOMAIN means \cup {y} |-> IF n = y THEN ms ELSE means[n]]
    /\ path' = Append(path, [op |-> op, self |-> x, out |-> y, a |-> a])
StrArg(c) == [d |-> [nd |-> c.d.nd, x |-> [i \in 1..Len(c.d.x) |-> RStr(c.d.x[i])]], axis |-> c.axis]

Shear == <<"1/2", -1>>
Init == mats = [n \in {"t0"} |-> Canon(Identity4)] /\ means = [n \in {"t0"} |-> <<>>] /\ path = <<>>
Next ==
    /\ Len(path) < Depth
    /\ \E x \in DOMAIN mats :
         \/ \E c \in Ms : Change(x, "translate", StrArg(c), TranslateMat(c.d, c.axis), <<Map("t", DispMap(c, 0), 0)>>)
         \/ \E c \in Ms : Change(x, "scale", StrArg(c), ScaleMat(c.d, c.axis), <<Map("s", DispMap(c, 1), 0)>>)
         \/ \E t \in Turns : Change(x, "rotate", [angle |-> RStr(t[1]), ax |-> t[2]],
                                    RotateMat(t[1], Dir(t[2])), <<Map("r", DirVec(Dir(t[2])), t[1])>>)
         \/ Change(x, "shear", None, ShearMat(Shear), <<Map("h", Shear, 0)>>)
         \/ \E y \in DOMAIN mats : Change(x, "compose", [T |-> y], mats[y], means[y])
         \/ /\ mats' = [mats EXCEPT ![x] = Canon(InvMat(@))] /\ means' = [means EXCEPT ![x] = Undo(@)]
            /\ path' = Append(path, [op |-> "invert", self |-> x, out |-> "", a |-> None])
         \/ /\ Names \ DOMAIN mats # {}
            /\ LET y == CHOOSE n \in Names \ DOMAIN mats : TRUE
               IN  \/ Made(y, x, "inverse", None, InvMat(mats[x]), Undo(means[x]))
                   \/ Made(y, x, "copy", None, mats[x], means[x])
                   \/ Made(y, x, "new", None, Identity4, <<>>)
    /\ IF Len(path) + 1 = Depth THEN Emit(ToJson(path')) ELSE TRUE
Spec == Init /\ [][Next]_vars

(***************************************************************************)
Eps == "1/100000000000000000000"
Probes == {S(P) : P \in {<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>}} \cup {S(<<"-3/2", 5, 2>>)}
Apply(M, P, w) == [i \in 1..4 |-> RSum([k \in 1..4 |-> RMul(M[4*(i-1) + k], IF k = 4 THEN w ELSE RMul(w, P[k]))])]
Acts ==
    \A n \in DOMAIN mats : \A P \in Probes : \A w \in {"1", "1/4"} :
        LET y == TLCEval(DoAll(means[n], P))  q == TLCEval(Apply(mats[n], P, w))
        IN  REq(q[4], w) /\ \A i \in 1..3 : RClose(RDiv(q[i], w), y[i], Eps)
Bottom == \A n \in DOMAIN mats : \A i \in 13..16 : REq(mats[n][i], Identity4[i])
Back2 == \A n \in DOMAIN mats : RMismatch(MatMul4(InvMat(mats[n]), mats[n]), Identity4, Eps) = 0
Rigid ==                                \* turns and moves keep lengths and orientation
    \A n \in DOMAIN mats :
        (\A i \in 1..Len(means[n]) : means[n][i].k \in {"t", "r"}) =>
            LET M == mats[n]
                e(i, j) == IF i = j THEN 1 ELSE 0
            IN  /\ \A i, j \in 1..3 : RClose(RSum([k \in 1..3 |-> RMul(M[4*(k-1)+i], M[4*(k-1)+j])]), e(i, j), Eps)
                /\ RClose(Det4(M), 1, Eps)
=============================================================================
