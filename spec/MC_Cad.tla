------------------------------- MODULE MC_Cad -------------------------------
(***************************************************************************)
(* The constructions that combine objects, from every small combination.   *)
(*                                                                         *)
(* Cad.tla says what the results of compat, ruled, join and coons must BE  *)
(* (relations).  This module says how to MAKE them, and explores           *)
(*    choose objects -> rewrite some of them -> construct -> spoil         *)
(* The invariants: what is made satisfies the relation (it can be          *)
(* satisfied, by every input) and a spoiled result - a moved point, a      *)
(* needless knot, another degree, another range, swapped results - does    *)
(* not (it excludes what it should).                                       *)
(* Every construction is emitted, for the real code to be run on.          *)
(***************************************************************************)
EXTENDS Cad, Small, Json

CONSTANTS What,         \* set of "compat", "ruled", "join", "coons"
          Degrees, Spans, Ends, Dims,
          Varies,       \* rewritings tried: subset of the ones below
          Depth         \* how many

VARIABLES what, os,     \* the construction and its inputs
          first,        \* the inputs as chosen
          path,         \* the rewritings made
          stage,        \* "choose", "made", "spoilt"
          qs            \* the results
vars == <<what, os, first, path, stage, qs>>
view == <<what, os, first, stage, qs, Len(path)>>

----------------------------------------------------------------------------
(* Making things.                                                          *)
RECURSIVE Merged(_)
Merged(Us) == IF Len(Us) = 1 THEN UniqueSeq(Us[1])
              ELSE LET m == Merged(Tail(Us))
                   IN  UniqueSeq(InsertAll(m, UniqueSeq(Us[1])))
UnionKnots(p, Us) ==                \* clamped vectors over one range, largest multiplicities
    LET n == Len(Us)
        all == Merged(Us)
        mult(x) == IMaxOf(n, LAMBDA i : CountEq(Us[i], x))
        RECURSIVE go(_)
        go(k) == IF k > Len(all) THEN <<>> ELSE Rep(all[k], mult(all[k])) \o go(k+1)
    IN  go(1)
Common(objs, a) ==                  \* the common space along axis a, and the objects' way there
    LET n == Len(objs)
        p == IMaxOf(n, LAMBDA i : objs[i].p[a])
        lo == MinOf(n, LAMBDA i : LoOf(objs[i], a))
        hi == MaxOf(n, LAMBDA i : HiOf(objs[i], a))
        m == TLCEval([i \in 1..n |-> Remap(objs[i], a, lo, hi)])
        e == TLCEval([i \in 1..n |-> ElevateKnots(objs[i].p[a], ClampSides(objs[i].p[a], m[i].U[a], TRUE, TRUE), p - objs[i].p[a])])
        W == TLCEval(UnionKnots(p, e))
    IN  TLCEval([i \in 1..n |-> InSpace(m[i], a, p, W)])
RECURSIVE CommonAll(_, _)
CommonAll(objs, axs) == IF Len(axs) = 0 THEN objs ELSE CommonAll(Common(objs, axs[1]), Tail(axs))
MakeCompat(objs) == CommonAll(objs, AxesSeq(objs[1]))
MakeRuled(o1, o2) ==
    LET c == TLCEval(MakeCompat(<<Geo(o1), Geo(o2)>>))
    IN  [p |-> c[1].p \o <<1>>, U |-> c[1].U \o <<<<0,0,1,1>>>>, sh |-> c[1].sh \o <<2>>, nc |-> 4,
         A |-> Stack(c[1], 2, LAMBDA i, k, x : HComp(c[k+1], i, x))]
MakeJoin(o1, o2, a) ==
    LET oth == OtherAxes(Dim(o1), a)
        m == TLCEval(CommonAll(<<o1, o2>>, oth))
        p == IF o1.p[a] < o2.p[a] THEN o2.p[a] ELSE o1.p[a]
        up(o) == LET k == TLCEval(Clamp(o, a, TRUE, TRUE)) IN IF o.p[a] = p THEN k ELSE TLCEval(Elevate(k, a, p - o.p[a]))
        x == up(m[1])  y0 == up(m[2])
        y == Remap(y0, a, HiOf(x, a), RAdd(HiOf(x, a), RSub(HiOf(y0, a), LoOf(y0, a))))
        n == x.sh[a]  k == y.sh[a]
        sh == Put(x.sh, a, n + k - 1)
        inner == Prod(SubSeq(sh, a+1, Len(sh))) * x.nc
        U == SubSeq(x.U[a], 1, Len(x.U[a]) - 1) \o SubSeq(y.U[a], p + 2, Len(y.U[a]))
    IN  [x EXCEPT !.U = Put(@, a, U), !.sh = sh,
            !.A = TLCEval([z1 \in 1..(Prod(sh) * x.nc) |->
                LET z == z1 - 1
                    i == z % inner  j == (z \div inner) % (n+k-1)  h == z \div (inner * (n+k-1))
                IN  IF j < n THEN x.A[(h*n + j)*inner + i + 1] ELSE y.A[(h*k + (j-n+1))*inner + i + 1]])]
(* the Boolean sum of two ruled surfaces                                   *)
MakeCoons(c) ==                     \* <<c00, c01, c10, c11>>
    LET v == TLCEval(MakeCompat(<<c[1], c[2]>>))
        u == TLCEval(MakeCompat(<<c[3], c[4]>>))
        S == Transpose(MakeRuled(v[1], v[2]), <<2, 1>>)
        T == MakeRuled(u[1], u[2])
        B == [p |-> <<1, 1>>, U |-> <<<<0,0,1,1>>, <<0,0,1,1>>>>, sh |-> <<2, 2>>, nc |-> 4,
              A |-> AtNorm(c[3], 0) \o AtNorm(c[4], 0) \o AtNorm(c[3], 1) \o AtNorm(c[4], 1)]
        k == TLCEval(MakeCompat(<<S, T, B>>))
    IN  [k[1] EXCEPT !.A = TLCEval([i \in 1..Len(k[1].A) |-> RSub(RAdd(k[1].A[i], k[2].A[i]), k[3].A[i])])]

----------------------------------------------------------------------------
(* Choosing the inputs.                                                    *)
SP == SpacesOf(Degrees, Spans, Ends)
CSP == SpacesOf(Degrees, Spans, "clamped")
Spaced == IF Dims = 1 THEN {<<s>> : s \in SP} ELSE {<<s, t>> : s \in SP, t \in SP}
Pairs == {<<ObjOn(x, 4, 0), ObjOn(y, 4, 1)>> : x \in Spaced, y \in Spaced}
(* the second starts where the first ends                                  *)
Meet(x, y) ==
    LET inner(o) == Prod(SubSeq(o.sh, 2, Len(o.sh))) * 4
        k == inner(x)
    IN  [y EXCEPT !.A = TLCEval([i \in 1..Len(y.A) |-> IF i <= k THEN x.A[Len(x.A) - k + i] ELSE y.A[i]])]
JoinPairs ==
    IF Dims = 1 THEN {<<ObjOn(<<s>>, 4, 0), Meet(ObjOn(<<s>>, 4, 0), ObjOn(<<t>>, 4, 1))>> : s \in CSP, t \in CSP}
    ELSE {<<ObjOn(<<s, r>>, 4, 0), Meet(ObjOn(<<s, r>>, 4, 0), ObjOn(<<t, r>>, 4, 1))>> : s \in CSP, t \in CSP, r \in SP}
Corner(i, j) == <<2*i - 1, j + 3*i*j, i - j, 1>>
Between(s, x, y, salt) ==
    LET o == ObjOn(<<s>>, 4, salt)
    IN  [o EXCEPT !.A = x \o SubSeq(@, 5, Len(@) - 4) \o y]
Quads == {<<Between(s, Corner(0,0), Corner(0,1), 0), Between(t, Corner(1,0), Corner(1,1), 1),
            Between(q, Corner(0,0), Corner(1,0), 2), Between(r, Corner(0,1), Corner(1,1), 3)>> :
              s \in CSP, t \in CSP, q \in CSP, r \in CSP}
Choices(w) == CASE w \in {"compat", "ruled"} -> Pairs
                [] w = "join" -> JoinPairs
                [] w = "coons" -> Quads
Canon(q) == [q EXCEPT !.U = [a \in 1..Len(q.U) |-> [i \in 1..Len(q.U[a]) |-> RNum(q.U[a][i])]],
                      !.A = TLCEval([i \in 1..Len(q.A) |-> RNum(q.A[i])])]
CanonAll(s) == [i \in 1..Len(s) |-> Canon(s[i])]

(* Rewriting: the same points on another space; its range moved.           *)
Vary(o, v) ==
    CASE v = "elevate" -> Elevate(o, 1, 1)
      [] v = "insert" -> Insert(o, 1, RAdd(LoOf(o, 1), RDiv(RSub(HiOf(o, 1), LoOf(o, 1)), 2)), 1)
      [] v = "unclamp" -> Unclamp(o, 1, o.p[1] - 1, TRUE, TRUE)
      [] v = "range" -> Remap(o, 1, RSub(LoOf(o, 1), RDiv(1, 2)), HiOf(o, 1))
      [] v = "unit" -> Remap(o, 1, 0, 1)
CanVary(o, v) ==
    v = "insert" => LET u == RAdd(LoOf(o, 1), RDiv(RSub(HiOf(o, 1), LoOf(o, 1)), 2))
                    IN  Mult(o.p[1], o.U[1], u) < o.p[1]
Made ==
    CASE what = "compat" -> MakeCompat(os)
      [] what = "ruled" -> <<MakeRuled(os[1], os[2])>>
      [] what = "join" -> <<MakeJoin(os[1], os[2], 1)>>
      [] what = "coons" -> <<MakeCoons(os)>>
Verdict0 ==
    CASE what = "compat" -> CompatRelation(os, qs, AxesSeq(os[1]), 0)
      [] what = "ruled" -> RuledVerdict(os[1], os[2], qs[1])
      [] what = "join" -> JoinVerdict(os[1], os[2], 1, qs[1])
      [] what = "coons" -> CoonsVerdict(os, qs[1])

Init == /\ what \in What /\ os \in Choices(what)
        /\ first = os /\ path = <<>> /\ stage = "choose" /\ qs = <<>>
Rewrite(i, v) ==
    /\ stage = "choose" /\ Len(path) < Depth /\ CanVary(os[i], v)
    /\ os' = Put(os, i, Canon(Vary(os[i], v)))
    /\ path' = Append(path, [i |-> i, v |-> v])
    /\ UNCHANGED <<what, first, stage, qs>>
Tell == Emit(ToJson([what |-> what, os |-> [i \in 1..Len(first) |-> ObjStrs(first[i])], path |-> path]))
Make == /\ stage = "choose"
        /\ qs' = CanonAll(Made) /\ stage' = "made"
        /\ UNCHANGED <<what, os, first, path>>
        /\ Tell
(* spoiling the results                                                    *)
Room1(q) == LET u == RAdd(LoOf(q, 1), RMul("1/3", RSub(HiOf(q, 1), LoOf(q, 1))))
            IN  IF CountEq(q.U[1], u) < q.p[1] THEN u ELSE RAdd(u, "1/100")
Spoilt(k) ==
    CASE k = "point" -> Put(qs, 1, [qs[1] EXCEPT !.A = Put(@, Len(@) - 2, RAdd(@[Len(@) - 2], "1/1000"))])
      [] k = "knot" -> [i \in 1..Len(qs) |-> Insert(qs[i], 1, Room1(qs[i]), 1)]
      [] k = "degree" -> [i \in 1..Len(qs) |-> Elevate(qs[i], 1, 1)]
      [] k = "range" -> [i \in 1..Len(qs) |-> Remap(qs[i], 1, RSub(LoOf(qs[i], 1), 1), HiOf(qs[i], 1))]
      [] k = "swap" -> IF Len(qs) = 1 THEN <<Reverse(qs[1], 1)>> ELSE <<qs[2], qs[1]>>
Kinds == IF what = "coons" THEN {"point", "range", "swap"}       \* it says what the surface is, not its knots
         ELSE {"point", "knot", "degree", "range", "swap"}
Spoil(k) == /\ stage = "made" /\ stage' = "spoilt"
            /\ qs' = CanonAll(Spoilt(k))
            /\ qs' # qs
            /\ UNCHANGED <<what, os, first, path>>
Next == \/ \E i \in 1..Len(os), v \in Varies : Rewrite(i, v)
        \/ Make
        \/ \E k \in Kinds : Spoil(k)
Spec == Init /\ [][Next]_vars

Accepts == stage = "made" => Verdict0 = ""
Rejects == stage = "spoilt" => Verdict0 # ""
Usable == \A i \in 1..Len(os) : WellFormed(os[i]) /\ Regular(os[i])
=============================================================================
