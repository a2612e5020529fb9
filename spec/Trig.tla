-------------------------------- MODULE Trig --------------------------------
(***************************************************************************)
(* Square roots, sines and cosines as rationals, rounded to 2^-100 at each *)
(* step (errors stay below 10^-25, far under any tolerance used here).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, Rat, TLC

TwoTo100 == "1267650600228229401496703205376"
RRound(x) == RDiv(RFloor(RAdd(RMul(x, TwoTo100), "1/2")), TwoTo100)

Pi == "3141592653589793238462643383279502884197/1000000000000000000000000000000000000000"

(* Newton from a power of 4 above x                                        *)
RECURSIVE SqrtStart(_, _)
SqrtStart(x, s) == IF RLt(x, RMul(s, s)) THEN
                       (IF RLe(RMul(RMul(s, s), "1/4"), x) THEN s ELSE SqrtStart(x, TLCEval(RDiv(s, 2))))
                   ELSE SqrtStart(x, TLCEval(RMul(s, 2)))
RECURSIVE Newton(_, _, _)
Newton(x, y, n) == IF n = 0 THEN y
                   ELSE Newton(x, TLCEval(RMul("1/2", RAdd(y, RDiv(x, y)))), n-1)
(* scaled so that small numbers keep relative precision                    *)
RECURSIVE NewtonR(_, _, _)
NewtonR(x, y, n) == IF n = 0 THEN y
                    ELSE NewtonR(x, TLCEval(RRound(RMul("1/2", RAdd(y, RDiv(x, y))))), n-1)
Sqrt(x) ==
    IF ~RLt(0, x) THEN 0
    ELSE LET s == SqrtStart(x, 1)               \* s/2 <= sqrt(x) < s
         IN  RMul(s, NewtonR(RDiv(x, RMul(s, s)), 1, 8))

RECURSIVE HalvingCount(_, _)
HalvingCount(x, n) == IF RLt(RAbs(x), "1/4") THEN n ELSE HalvingCount(TLCEval(RDiv(x, 2)), n+1)
RECURSIVE Taylor(_, _, _, _, _)
(* sum of term * prod -y2/((k+1)(k+2)) ...                                 *)
Taylor(y2, term, k, n, acc) ==
    IF n = 0 THEN acc
    ELSE LET t == TLCEval(RRound(RNeg(RDiv(RMul(term, y2), (k+1)*(k+2)))))
         IN  Taylor(y2, t, k+2, n-1, TLCEval(RAdd(acc, t)))
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n-1)
RECURSIVE Doubling(_, _)
Doubling(cs, n) ==                              \* (cos, sin) of the doubled angle, n times
    IF n = 0 THEN cs
    ELSE Doubling(TLCEval(<<RRound(RSub(RMul(cs[1], cs[1]), RMul(cs[2], cs[2]))),
                            RRound(RMul(2, RMul(cs[1], cs[2])))>>), n-1)
CosSin(x) ==
    LET n == HalvingCount(x, 0)
        y == RRound(RDiv(x, Pow2(n)))
        y2 == TLCEval(RRound(RMul(y, y)))
    IN  Doubling(<<Taylor(y2, 1, 0, 11, 1), Taylor(y2, y, 1, 11, y)>>, n)
=============================================================================
