-------------------------------- MODULE Interp --------------------------------
(* Interpolation between numbers and between vectors, and squares.           *)
(* Ends a and b are integers in some unit, t is k / inv, answers are in      *)
(* 1/64 units.                                                               *)
EXTENDS Ints

Fine == 64
\* the point that divides the way from a to b as k divides inv
Between(a, b, k, inv) == Fine * a + RDivBig(Fine * k * (b - a), inv)
\* a step of rounding here, and what single precision loses
Slack(a, b, k, inv) == 1 + (Fine * (Abs(a) + Abs(b) + Abs((k * (b - a)) \div inv))) \div 2097152
MayLerp(a, b, k, inv, x) == Abs(x - Between(a, b, k, inv)) <= Slack(a, b, k, inv)
MayLerps(a, b, k, inv, x) == \A i \in 1..Len(a) : MayLerp(a[i], b[i], k, inv, x[i])
MaySquare(a, x) == x = a * a
=============================================================================
