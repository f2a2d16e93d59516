-------------------------------- MODULE Approx --------------------------------
(* Approximate equality.  Numbers are integers in some small unit; a         *)
(* tolerance is mul / inv.  Vectors are given as a in coarse units (R small    *)
(* ones each) and the difference to b in small units.  Near the tolerance    *)
(* (2% and two units) either answer is right.                                *)
EXTENDS Ints

Margin(q) == q \div 50 + 2
MustAccept(d, q) == d + Margin(d) <= q
MustReject(d, q) == d >= q + Margin(q)

\* t: the tolerance in units, for comparison with zero
MayNum(a, b, mul, inv, t, ok) ==
  LET d == Abs(a - b)
      x == (Min2(Abs(a), Abs(b)) * mul) \div inv
      y == (Max2(Abs(a), Abs(b)) * mul) \div inv
  IN IF d = 0 THEN ok
     ELSE IF a = 0 \/ b = 0 THEN (MustAccept(d, t) => ok) /\ (MustReject(d, t) => ~ok)
     ELSE (MustAccept(d, x) => ok) /\ (MustReject(d, y) => ~ok)

Square(v) == IF Len(v) = 2 THEN v[1] * v[1] + v[2] * v[2] ELSE v[1] * v[1] + v[2] * v[2] + v[3] * v[3]
Length(v) == ISqrt(Square(v))
MayVec(a, d, R, mul, inv, ok, swapped) ==
  LET b == [k \in 1..Len(a) |-> a[k] + RDiv(d[k], R)]
      mag == Max2(Length(a), Length(b))
      q == (mag * R * mul) \div inv
      low == (Max2(mag - 2, 0) * R * mul) \div inv
      high == ((mag + 2) * R * mul) \div inv
      dl == Length(d)
  IN /\ ok = swapped
     /\ IF dl = 0 THEN ok ELSE (MustAccept(dl, low) => ok) /\ (MustReject(dl, high) => ~ok)
\* a difference that is not a number, or infinite
MayOdd(ok) == ~ok
=============================================================================
