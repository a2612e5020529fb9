-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational numbers.  Like the standard modules Naturals and Reals,  *)
(* the operators below are evaluated by TLC with a Java override           *)
(* (../java/Rat.java, BigInteger numerators and denominators); the         *)
(* definitions given here say what they mean.  MC_Rat.tla checks the       *)
(* override against integer arithmetic (RatRef.tla).                       *)
(*                                                                         *)
(* A rational is written as a TLA+ integer, a string "n/d", or a string    *)
(* holding a decimal literal such as "0.1", which denotes the exact value  *)
(* of the IEEE double nearest to it (this is how the real code's floats    *)
(* enter the specification).  "nan", "inf" and "-inf" are not finite: all  *)
(* comparisons with them are FALSE.                                        *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

LOCAL Sem(x) == CHOOSE r : r = x          \* the number x denotes (override)

RNum(a)    == Sem(a)                      \* canonical form
RStr(a)    == CHOOSE s : RNum(s) = RNum(a)\* canonical string
RFinite(a) == CHOOSE b \in BOOLEAN : TRUE
RAdd(a, b) == CHOOSE r : TRUE             \* a + b
RSub(a, b) == CHOOSE r : TRUE             \* a - b
RMul(a, b) == CHOOSE r : TRUE             \* a * b
RDiv(a, b) == CHOOSE r : RMul(r, b) = RNum(a)   \* a / b ("nan" when b = 0)
RLt(a, b)  == CHOOSE r \in BOOLEAN : TRUE \* a < b
REq(a, b)  == ~RLt(a, b) /\ ~RLt(b, a)
RLe(a, b)  == RLt(a, b) \/ REq(a, b)
RNeg(a)    == RSub(0, a)
RAbs(a)    == IF RLt(a, 0) THEN RNeg(a) ELSE RNum(a)
RMax(a, b) == IF RLt(a, b) THEN RNum(b) ELSE RNum(a)
RMin(a, b) == IF RLt(b, a) THEN RNum(b) ELSE RNum(a)
RFloor(a)  == CHOOSE i \in Int : RLe(i, a) /\ RLt(a, i + 1)

(* Folds, given natively because control nets are long.                    *)
RECURSIVE RDot(_, _)                      \* sum of c[i]*x[i], i in DOMAIN c
RDot(c, x) == IF Len(c) = 0 THEN 0
              ELSE RAdd(RMul(c[1], x[1]), RDot(Tail(c), Tail(x)))
RGather(c, x, start, stride) ==           \* sum of c[i]*x[start+(i-1)*stride]
    RDot(c, [i \in 1..Len(c) |-> x[start + (i-1)*stride]])
RECURSIVE RSum(_)
RSum(x)    == IF Len(x) = 0 THEN 0 ELSE RAdd(x[1], RSum(Tail(x)))
RECURSIVE RMaxAbs(_)
RMaxAbs(x) == IF Len(x) = 0 THEN 0 ELSE RMax(RAbs(x[1]), RMaxAbs(Tail(x)))
RClose(a, b, tol) == RLe(RAbs(RSub(a, b)), tol)
RMismatch(a, b, tol) ==                   \* first index at which a, b differ by more than tol; 0 if none
    IF Len(a) # Len(b) THEN -1
    ELSE IF \A i \in 1..Len(a) : RClose(a[i], b[i], tol) THEN 0
    ELSE CHOOSE i \in 1..Len(a) : /\ ~RClose(a[i], b[i], tol)
                                  /\ \A j \in 1..(i-1) : RClose(a[j], b[j], tol)
RAllFinite(x) == \A i \in 1..Len(x) : RFinite(x[i])

Emit(v) == TRUE                           \* side effect: append v to the output file
=============================================================================
