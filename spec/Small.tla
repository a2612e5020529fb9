------------------------------- MODULE Small -------------------------------
(***************************************************************************)
(* The small spline spaces and objects the models start from.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, Rat, TLC
LOCAL INSTANCE BSpline

BreakAt == <<0, 1, 3, 4, 8>>        \* spans of different lengths
Outside(side, b, n) ==
    [i \in 1..n |-> IF side = 0 THEN RDiv(i-1-n, 2) ELSE RAdd(b, i)]
RECURSIVE Spread(_, _)
Spread(m, i) == IF i > Len(m) THEN <<>> ELSE Rep(BreakAt[i+1], m[i]) \o Spread(m, i+1)
(* degree, multiplicities inside, multiplicities of the domain's ends      *)
KnotsOf(q, m, l, r) ==
    LET b == BreakAt[Len(m) + 2]
        s == Outside(0, 0, q+1-l) \o Rep(0, l) \o Spread(m, 1) \o Rep(b, r) \o Outside(1, b, q+1-r)
    IN  [i \in 1..Len(s) |-> RNum(s[i])]
EndPairs(q, ends) ==
    CASE ends = "all" -> (1..(q+1)) \X (1..(q+1))
      [] ends = "two" -> {<<q+1, q+1>>, <<1, q+1>>, <<1, 1>>}
      [] ends = "clamped" -> {<<q+1, q+1>>}
SpacesOf(degrees, spans, ends) ==
    UNION {{[p |-> q, U |-> KnotsOf(q, m, e[1], e[2])] :
            e \in EndPairs(q, ends), m \in UNION {[1..(k-1) -> 1..q] : k \in spans}} : q \in degrees}

RECURSIVE Cells(_)
Cells(sh) == IF Len(sh) = 0 THEN 1 ELSE sh[1] * Cells(Tail(sh))
(* an object on the given spaces: distinct points, weights 1, 2, 1/2       *)
ObjOn(ss, nc, salt) ==
    LET sh == [a \in 1..Len(ss) |-> NumCP(ss[a].p, ss[a].U)]
        n == Cells(sh)
        v(x) == RDiv(((7*x*x + (3+salt)*x + 5*salt) % 23) - 5, 2)
        w(i) == (<<1, 2, RDiv(1, 2), 1>>)[((i + salt) % 4) + 1]
    IN  [p |-> [a \in 1..Len(ss) |-> ss[a].p], U |-> [a \in 1..Len(ss) |-> ss[a].U], sh |-> sh, nc |-> nc,
         A |-> TLCEval([x \in 1..(n*nc) |-> IF ((x-1) % nc) + 1 = 4 THEN RNum(w((x-1) \div nc)) ELSE v(x)])]
Strs(s) == [i \in 1..Len(s) |-> RStr(s[i])]
ObjStrs(o) == [p |-> o.p, U |-> [a \in 1..Len(o.U) |-> Strs(o.U[a])], nc |-> o.nc, A |-> Strs(o.A)]
=============================================================================
