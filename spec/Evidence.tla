------------------------------- MODULE Evidence -------------------------------
(* What a library that knows shapes only through their support functions may *)
(* conclude.  Asking for the support points of both shapes in opposite       *)
(* directions n, -n gives a point d of the difference A (-) B that is        *)
(* farthest along n.  From such probes:                                      *)
(*   - the shapes are apart by at least  -n.d  for every probe;              *)
(*   - they overlap by at most n.d for every probe;                          *)
(*   - A (-) B contains the hull of all probed points, so the shapes are     *)
(*     apart by at most the distance of 0 to that hull, and overlap by at    *)
(*     least its depth in it.                                                *)
(* An answer is justified when the probes made for it prove it to within the *)
(* accuracy promised.                                                        *)
EXTENDS Geometry
CONSTANT EvTol
VARIABLE seen      \* probes made for the question being answered: set of [n, d]

EvInit == seen = {}
Probed(n, d) == seen' = seen \cup {[n |-> n, d |-> d]}

Directed == {p \in seen : p.n # <<0, 0>>}
Points == {p.d : p \in seen}
MaxIn(S) == CHOOSE x \in S : \A y \in S : y <= x
MinIn(S) == CHOOSE x \in S : \A y \in S : x <= y
\* how far the probes prove the shapes to be apart / at most overlapping
Reach(p) == RDivBig(Dot(p.n, p.d), ROT)
ProvenGap == MaxIn({-Reach(p) : p \in Directed})

\* directions in which the hull of the points S ends nearest to the origin
Candidates(S) ==
  {n \in {Shrink(Fit(Neg(d))) : d \in S}
         \cup UNION {{Shrink(Fit(<<q[2] - p[2], p[1] - q[1]>>)) : q \in S} : p \in S} : n # <<0, 0>>}
\* depth of 0 in the hull of S (negative: its distance from it)
HullDepth(S) == LET SS == SetToSeq(S)
                IN IF Candidates(S) = {} THEN 0 ELSE MinIn({Sup(SS, n) \div VLen(n) : n \in Candidates(S)})
Few == Cardinality(Points) <= 20

ApartJustified == Directed # {} => ProvenGap >= -EvTol
OverlapJustified == (Few /\ Points # {}) => HullDepth(Points) >= -EvTol
GapJustified(m, inv) ==
  /\ Directed # {} => ProvenGap >= m - m \div inv - EvTol
  /\ (Few /\ Points # {}) => -HullDepth(Points) <= m + m \div inv + EvTol
DepthJustified(m, inv) ==
  /\ Directed # {} => -ProvenGap <= m + m \div inv + EvTol
  /\ (Few /\ Points # {}) => HullDepth(Points) >= m - m \div inv - EvTol
=============================================================================
