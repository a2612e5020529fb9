---------------------------- MODULE MC_Construct ----------------------------
(***************************************************************************)
(* The constructor: every way of giving control points (2, 3, 4            *)
(* components or none), weights and fields, right or with one thing wrong. *)
(* Invariants: consistent arguments are accepted; the object made has the  *)
(* points, weights and fields given; making an object again from its own   *)
(* arrays gives the same object.                                           *)
(***************************************************************************)
EXTENDS Construct, Small, Json

CONSTANTS Dims, Degrees, Ends
VARIABLES how,          \* the choice made
          a,            \* the arguments
          stage,        \* "chosen", "made", "again"
          q             \* the object
vars == <<how, a, stage, q>>
view == vars

Faults == {"none", "rank-more", "rank-less", "extent", "weights-column", "weights-short", "fields-extent",
           "fields-rank", "knots-drop", "knots-repeat", "knots-one-more-vector", "knots-one-less-vector",
           "knots-few", "components-1", "components-5", "weights-twice", "weights-alone"}
SP == SpacesOf(Degrees, {1, 2}, Ends)
Choice == [d : Dims, s : {0, 2, 3, 4}, w : BOOLEAN, f : 0..3, fault : Faults]
Sensible(c) == /\ (c.w => c.s \in {2, 3})
               /\ (c.fault \in {"rank-more", "rank-less", "extent", "components-1", "components-5", "weights-twice"} => c.s # 0)
               /\ (c.fault \in {"weights-column", "weights-short"} => c.w)
               /\ (c.fault \in {"fields-extent", "fields-rank"} => c.f > 0)
               /\ (c.fault = "weights-alone" => c.s = 0)

RECURSIVE Size(_)
Size(sh) == IF Len(sh) = 0 THEN 1 ELSE sh[1] * Size(Tail(sh))
Vals(sh, salt) == [sh |-> sh, A |-> [x \in 1..Size(sh) |-> RStr(RDiv(((7*x*x + salt*x) % 19) + 1, 2))]]
Arr(sh, salt) == <<Vals(sh, salt)>>
Bump(sh) == [i \in 1..Len(sh) |-> IF i = 1 THEN sh[i] + 1 ELSE sh[i]]
Args(c, ss) ==
    LET d == c.d
        sh == [i \in 1..d |-> NumCP(ss[i].p, ss[i].U)]
        K == [i \in 1..d |-> Strs(ss[i].U)]
        s == CASE c.fault = "components-1" -> 1 [] c.fault = "components-5" -> 5
               [] c.fault = "weights-twice" -> 4 [] OTHER -> c.s
        csh == CASE c.fault = "rank-more" -> sh \o <<s, 2>>
                 [] c.fault = "rank-less" -> sh
                 [] c.fault = "extent" -> Bump(sh) \o <<s>>
                 [] OTHER -> sh \o <<s>>
        wsh == CASE c.fault = "weights-column" -> sh \o <<1>> [] c.fault = "weights-short" -> Bump(sh) [] OTHER -> sh
        f0 == IF c.fault = "fields-extent" THEN Bump(sh) ELSE sh
        fsh == CASE c.fault = "fields-rank" -> f0 \o <<2, 2>> [] c.f = 1 -> f0 [] OTHER -> f0 \o <<c.f - 1>>
    IN  [knots |-> CASE c.fault = "knots-drop" -> [K EXCEPT ![1] = SubSeq(@, 1, Len(@) - 1)]
                     [] c.fault = "knots-repeat" -> [K EXCEPT ![d] = Append(@, @[Len(@)])]
                     [] c.fault = "knots-one-more-vector" -> Append(K, K[1])
                     [] c.fault = "knots-one-less-vector" -> SubSeq(K, 2, d)
                     [] c.fault = "knots-few" -> [K EXCEPT ![1] = SubSeq(@, 1, 3)]
                     [] OTHER -> K,
         control |-> IF c.s = 0 THEN <<>> ELSE Arr(csh, 3),
         weights |-> IF c.w \/ c.fault \in {"weights-twice", "weights-alone"} THEN Arr(wsh, 5) ELSE <<>>,
         fields |-> IF c.f = 0 THEN <<>> ELSE Arr(fsh, 2)]

Blank == [p |-> <<>>, U |-> <<>>, sh |-> <<>>, nc |-> 4, A |-> <<>>]
Canon(x) == [x EXCEPT !.U = [i \in 1..Len(x.U) |-> [j \in 1..Len(x.U[i]) |-> RNum(x.U[i][j])]],
                      !.A = TLCEval([i \in 1..Len(x.A) |-> RNum(x.A[i])])]
Tuples == UNION {[1..d -> SP] : d \in Dims}
Init == /\ how \in {c \in Choice : Sensible(c)}
        /\ \E ss \in Tuples : Len(ss) = how.d /\ a = Args(how, ss)
        /\ stage = "chosen" /\ q = Blank
Tell == Emit(ToJson([a |-> a, fault |-> how.fault, ok |-> ConStatus(a) = "must"]))
Make == /\ stage = "chosen" /\ Tell
        /\ IF ConStatus(a) = "must" THEN stage' = "made" /\ q' = Canon(ConResult(a))
           ELSE stage' = ConStatus(a) /\ q' = q
        /\ UNCHANGED <<how, a>>
Own(x) == LET n == Prod(x.sh)
          IN  [knots |-> [i \in 1..Len(x.U) |-> Strs(x.U[i])],
               control |-> <<[sh |-> x.sh \o <<4>>,
                              A |-> [i \in 1..(4*n) |-> Comp(x.A, x.nc, (i-1) \div 4, ((i-1) % 4) + 1)]]>>,
               weights |-> <<>>,
               fields |-> IF x.nc = 4 THEN <<>> ELSE <<[sh |-> x.sh \o <<x.nc - 4>>, A |-> Fields(x)]>>]
Again == /\ stage = "made" /\ stage' = "again"
         /\ a' = Own(q) /\ ConStatus(a') = "must" /\ q' = Canon(ConResult(a'))
         /\ UNCHANGED how
Next == Make \/ Again
Spec == Init /\ [][Next]_vars

AlwaysAgain == stage = "made" => ConStatus(Own(q)) = "must" /\ Canon(ConResult(Own(q))) = q
Accepted == stage \in {"mustnot", "any"} => \/ how.fault # "none"
                                            \/ how.s = 0 /\ Ends # "clamped"    \* degrees cannot be told
(* Something wrong is refused, unless it happens to be a different but     *)
(* consistent request: other degrees, or without points other vectors.     *)
Refused == (stage = "made" /\ how.fault # "none") =>
                \/ how.fault \in {"knots-drop", "knots-repeat", "extent"}
                \/ how.s = 0 /\ how.fault \in {"knots-one-more-vector", "knots-one-less-vector", "knots-few"}
Given ==
    stage = "made" =>
        LET n == Prod(q.sh)  P == Points(q)  W == Weights(q)
            C == a.control[1]
        IN  /\ WellFormed(q)
            /\ how.s \in {2, 3} =>
                  /\ \A i \in 0..(n-1) : \A c \in 1..3 :
                        REq(P[3*i + c], IF c > how.s THEN 0 ELSE C.A[how.s*i + c])
                  /\ \A i \in 1..n : REq(W[i], IF Has(a.weights) THEN a.weights[1].A[i] ELSE 1)
            /\ how.s = 4 => \A i \in 0..(n-1) : \A c \in 1..4 : REq(Comp(q.A, q.nc, i, c), C.A[4*i + c])
            /\ how.s = 0 => \A i \in 1..n : REq(W[i], 1)
            /\ how.f > 0 => RMismatch(Fields(q), a.fields[1].A, 0) = 0
=============================================================================
