------------------------------ MODULE MC_Approx ------------------------------
(* Approximate equality over small numbers and vectors: both answers are     *)
(* never forbidden, one is forced away from the tolerance, and the relation  *)
(* that is allowed contains equality and is symmetric for vectors.           *)
EXTENDS Approx
CONSTANT N
VARIABLE c
MCInit == c = [on |-> FALSE, mul |-> 1, inv |-> 1]
MCNext == \/ ~c.on /\ c.inv = 1 /\ \E i \in {2, 10, 100}, m \in {1, 3, 40} : c' = [c EXCEPT !.inv = i, !.mul = m]
          \/ ~c.on /\ c.inv > 1 /\ \E a \in -N..N, b \in -N..N : c' = [on |-> TRUE, mul |-> c.mul, inv |-> c.inv, a |-> a, b |-> b]
MCSpec == MCInit /\ [][MCNext]_c
Num(ok) == MayNum(c.a, c.b, c.mul, c.inv, (100 * c.mul) \div c.inv, ok)
Total == c.on => Num(TRUE) \/ Num(FALSE)
Reflexive == (c.on /\ c.a = c.b) => Num(TRUE) /\ ~Num(FALSE)
Judged == (c.on /\ c.a # 0 /\ c.b # 0) =>
   LET d == Abs(c.a - c.b) s == Min2(Abs(c.a), Abs(c.b)) g == Max2(Abs(c.a), Abs(c.b)) IN
   /\ (d * c.inv * 2 < s * c.mul /\ d >= 6) => ~Num(FALSE)
   /\ (d * c.inv > 2 * g * c.mul /\ d >= 8) => ~Num(TRUE)
\* vectors (a, b) against (a + d, b): the same whichever comes first
Even == c.on => \A d \in {0, 3, -40, 200}, ok \in BOOLEAN : ~MayVec(<<c.a, c.b>>, <<d, 0>>, 1, c.mul, c.inv, ok, ~ok)
VecTotal == c.on => \A d \in {0, 3, -40, 200} : \E ok \in BOOLEAN : MayVec(<<c.a, c.b>>, <<d, 0>>, 1, c.mul, c.inv, ok, ok)
=============================================================================
