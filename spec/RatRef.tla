------------------------------- MODULE RatRef -------------------------------
(***************************************************************************)
(* Rational numbers as pairs of integers, by their schoolbook definitions. *)
(* Nothing here is overridden: MC_Rat compares Rat.tla with it.            *)
(***************************************************************************)
EXTENDS Integers, Sequences

Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(q) == LET g == Gcd(Abs(q[1]), Abs(q[2]))
               s == IF q[2] < 0 THEN -1 ELSE 1
           IN  <<s * (q[1] \div g), s * (q[2] \div g)>>
Add(a, b) == Norm(<<a[1]*b[2] + b[1]*a[2], a[2]*b[2]>>)
Sub(a, b) == Norm(<<a[1]*b[2] - b[1]*a[2], a[2]*b[2]>>)
Mul(a, b) == Norm(<<a[1]*b[1], a[2]*b[2]>>)
Div(a, b) == Norm(<<a[1]*b[2], a[2]*b[1]>>)
Lt(a, b) == a[1]*b[2] < b[1]*a[2]          \* denominators positive
Eq(a, b) == a[1]*b[2] = b[1]*a[2]
Floor(a) == a[1] \div a[2]                 \* \div rounds down, the denominator being positive
RECURSIVE Fold(_, _, _, _)
Fold(Op(_, _), acc, s, n) == IF n = 0 THEN acc ELSE Op(Fold(Op, acc, s, n-1), s[n])
Sum(s) == Fold(Add, <<0, 1>>, s, Len(s))
Dot(c, x) == Sum([i \in 1..Len(c) |-> Mul(c[i], x[i])])
=============================================================================
