----------------------------- MODULE MC_Evidence -----------------------------
(* What probes prove is true: for pairs of small shapes and every set of up  *)
(* to Most honest probes, the gap and the depth they establish never exceed  *)
(* the real ones, and the answers called justified are right.                *)
EXTENDS Evidence
CONSTANTS Most
VARIABLE F        \* facts about the pair
U == 600
Shp == << << <<0, 0>> >>, << <<2 * U, U>>, <<-2 * U, U>>, <<-2 * U, -U>>, <<2 * U, -U>> >>, << <<2 * U, -U>>, <<-U, 2 * U>>, <<-U, -U>> >> >>
Moved(P, x, y) == [i \in 1..Len(P) |-> <<P[i][1] + x, P[i][2] + y>>]
Dirs == << <<ROT, 0>>, <<0, ROT>>, <<-ROT, 0>>, <<0, -ROT>>, <<11585, 11585>>, <<-13107, 9830>>, <<-9830, -13107>>, <<11585, -11585>> >>
Farthest(P, n) == CHOOSE p \in {P[i] : i \in 1..Len(P)} : \A i \in 1..Len(P) : Dot(n, P[i]) <= Dot(n, p)
None == [sd |-> 0, sdKnown |-> FALSE]
MCInit == EvInit /\ F = None
MCNext ==
  \/ F = None /\ UNCHANGED seen /\ \E a, b \in 1..3, x \in -5..5, y \in {-4, -2, -1, 0, 1, 3} : F' = FactsOf(Shp[a], 0, Moved(Shp[b], U * x, U * y), 0)
  \/ F # None /\ Cardinality(seen) < Most /\ UNCHANGED F
     /\ \E i \in 1..Len(Dirs) : LET n == Dirs[i] IN Probed(n, Sub(Farthest(F.A, n), Farthest(F.B, Neg(n))))
MCSpec == MCInit /\ [][MCNext]_<<seen, F>>
Asked == F # None /\ seen # {}
Sound == Asked => ProvenGap <= F.sd + 2 /\ HullDepth(Points) <= -F.sd + 3
Justly == Asked =>
  /\ (ApartJustified /\ Cardinality(seen) >= 1) => F.sd >= -EvTol - 2
  /\ OverlapJustified => F.sd <= EvTol + 3
  /\ \A m \in {Abs(F.sd) + 200, Abs(F.sd) * 2 + 100} : (F.sd > EvTol + 3 => ~GapJustified(m, 1024)) /\ (F.sd < -EvTol - 3 => ~DepthJustified(m, 1024))
=============================================================================
