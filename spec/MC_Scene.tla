------------------------------- MODULE MC_Scene -------------------------------
(* The specification of scenes against first principles: two bodies, all     *)
(* placements on a coarse lattice.                                           *)
(*  - FactsOf knows the Minkowski difference through its support function    *)
(*    only; here the difference is built point by point, and its distance to *)
(*    the origin is taken over all its chords and all its hull edges.        *)
(*  - the facts do not depend on the order of the bodies or on the frame.    *)
(*  - an answer that may be given brings the bodies into contact when they   *)
(*    are moved by it (so "may be answered" means what it should), and one   *)
(*    that may be given exists (so it does not mean too much).               *)
EXTENDS Scene
CONSTANT Turns, Scales, Reach

U == 600
Pts(S) == [i \in 1..Len(S) |-> <<U * S[i][1], U * S[i][2]>>]
Kinds == << [P |-> << <<0, 0>> >>, r |-> 0],
            [P |-> << <<0, 0>> >>, r |-> 2 * U],
            [P |-> << <<2 * U, U>>, <<-2 * U, U>>, <<-2 * U, -U>>, <<2 * U, -U>> >>, r |-> 0],
            [P |-> << <<2 * U, 0>>, <<0, 2 * U>>, <<-2 * U, 0>>, <<0, -2 * U>> >>, r |-> 0],
            [P |-> << <<2 * U, -U>>, <<-U, 2 * U>>, <<-U, -U>> >>, r |-> 0],
            [P |-> << <<2 * U, 0>>, <<U, 2 * U>>, <<-U, 2 * U>>, <<-2 * U, 0>>, <<-U, -2 * U>>, <<U, -2 * U>> >>, r |-> 0] >>
AllTurns == << <<ROT, 0>>, <<0, ROT>>, <<9830, 13107>>, <<-13107, 9830>>, <<-11585, -11585>>, <<4237, -15827>> >>
At(t, k, x, y) == [c |-> AllTurns[t][1], s |-> AllTurns[t][2], k |-> (k * ROT) \div 2, x |-> x, y |-> y]
Still == << At(1, 2, 0, 0), At(3, 2, 0, 0), At(1, 3, 0, 0) >>

-----------------------------------------------------------------------------
(* First principles *)
Diff(F) == {Sub(F.A[i], F.B[j]) : i \in 1..Len(F.A), j \in 1..Len(F.B)}
\* distance of the origin to the segment from a to b
ToSegment(a, b) ==
  LET ab == Sub(b, a)
      l == VLen(ab)
  IN IF l = 0 \/ Dot(Neg(a), ab) <= 0 THEN VLen(a)
     ELSE IF Dot(Neg(b), Neg(ab)) <= 0 THEN VLen(b)
     ELSE Abs(Cross(a, b)) \div l
\* a and b are the ends of an edge of the hull: everything is on their left
IsEdge(D, a, b) == a # b /\ \A d \in D : Cross(Sub(b, a), Sub(d, a)) >= 0
Edges(D) == {e \in D \X D : IsEdge(D, e[1], e[2])}
\* how far the origin is to the left of an edge
Inside(e) == LET l == VLen(Sub(e[2], e[1])) IN Cross(Sub(e[2], e[1]), Neg(e[1])) \div l
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Flat(D) == Cardinality(D) < 3 \/ \E e \in Edges(D) : <<e[2], e[1]>> \in Edges(D)
ByHand(F) ==
  LET D == Diff(F)
      in == ~Flat(D) /\ \A e \in Edges(D) : Inside(e) >= 0
  IN IF in THEN -Least({Inside(e) : e \in Edges(D)}) - F.r
     ELSE Least({ToSegment(a, b) : a \in D, b \in D}) - F.r

-----------------------------------------------------------------------------
Dirs == << <<ROT, 0>>, <<0, ROT>>, <<-ROT, 0>>, <<0, -ROT>>, <<11585, 11585>>, <<-11585, 11585>>, <<-11585, -11585>>, <<11585, -11585>>,
           <<9830, 13107>>, <<-9830, 13107>>, <<9830, -13107>>, <<-13107, -9830>>, <<7327, 14654>>, <<-14654, 7327>> >>
\* the directions worth answering with: the normals of the difference, and from its corners to the origin
UnitOf(n) == LET f == Shrink(Fit(n)) l == VLen(f) IN IF l = 0 THEN <<ROT, 0>> ELSE <<RDivBig(f[1] * 16000, l) + RDivBig(f[1] * 384, l), RDivBig(f[2] * 16000, l) + RDivBig(f[2] * 384, l)>>
Normals(F) == {UnitOf(F.H[i].n) : i \in 1..Len(F.H)}
ToCorners(F) == {UnitOf(Neg(d)) : d \in Diff(F)}
Lengths(F) == {Abs(F.sd), Abs(F.sd) + Abs(F.sd) \div 5 + 40, 100}
INV == 1024

MCInit == SceneInit
Two == DOMAIN bodies = {1, 2}
MCNext ==
  \/ bodies = <<>> /\ \E a \in 1..Len(Kinds), p \in 1..Len(Still) : SetBody(1, Kinds[a].P, Kinds[a].r, Still[p])
  \/ DOMAIN bodies = {1} /\ \E b \in 1..Len(Kinds), t \in Turns, k \in Scales, x, y \in -Reach..Reach :
       SetBody(2, Kinds[b].P, Kinds[b].r, At(t, k, x * U, y * U))
  \/ Two /\ ~focus.on /\ due = {} /\ FocusOn(2, 1)
  \/ Two /\ focus.on /\ due = {} /\ \E n \in {Dirs[i] : i \in 1..Len(Dirs)}, m \in Lengths(focus.F) :
       /\ MaySdfv(focus.F, focus.F.sd < 0, n, m, 1, INV) /\ Where(focus.F) # "touch"
       /\ LET T == bodies[2].T
          IN Push(n, m, [T EXCEPT !.x = T.x + RDivBig(n[1] * m, ROT), !.y = T.y + RDivBig(n[2] * m, ROT)], INV)
MCSpec == MCInit /\ [][MCNext]_vars

Near(a, b) == Abs(a - b) <= 3
True == (focus.on /\ focus.F.sdKnown) => Near(focus.F.sd, ByHand(focus.F))
EitherWay == focus.on => LET G == PairFacts(1, 2) IN Near(G.sd, focus.F.sd) /\ G.size = focus.F.size
\* the whole scene moved: turned by 3-4-5 and shifted
Shifted(T) == LET p == Turn([Identity EXCEPT !.c = 9830, !.s = 13107], <<T.x, T.y>>)
              IN [c |-> RDivBig(9830 * T.c - 13107 * T.s, ROT), s |-> RDivBig(13107 * T.c + 9830 * T.s, ROT), k |-> T.k, x |-> p[1] + 777, y |-> p[2] - 1234]
AnyFrame == focus.on =>
  LET A == bodies[2] B == bodies[1]
      F == FactsOf(PlacePoly(Shifted(A.T), A.P), PlaceRadius(A.T, A.r), PlacePoly(Shifted(B.T), B.P), PlaceRadius(B.T, B.r))
  IN Abs(F.sd - focus.F.sd) <= 8
\* what may be answered does the job ...
Kept == \A d \in due : LET F == PairFacts(2, 1) IN Abs(F.sd) <= d.slack
Shortest == focus.on => \A i \in 1..Len(Dirs), m \in Lengths(focus.F) :
  LET F == focus.F IN (Where(F) # "touch" /\ MaySdfv(F, F.sd < 0, Dirs[i], m, 1, INV)) => Abs(m - Abs(F.sd)) <= Abs(F.sd) \div INV + Tol + 3
\* ... and may be answered
Answerable == (focus.on /\ Where(focus.F) # "touch") =>
  LET F == focus.F
      b == F.sd < 0
      m == Abs(F.sd)
      ways == {Neg(n) : n \in Normals(F)} \cup Normals(F) \cup ToCorners(F) \cup {Neg(n) : n \in ToCorners(F)}
  IN /\ \E n \in ways : MaySdfv(F, b, n, m, 1, INV) /\ MaySdfv(F, b, Neg(n), m, -1, INV)
     /\ \A n \in ways : ~MaySdfv(F, ~b, n, m, 1, INV)
     /\ MayCollide(F, b) /\ ~MayCollide(F, ~b)
     /\ MaySdf(F, F.sd, INV) /\ ~MaySdf(F, -F.sd, INV)
     /\ ~MayFail(F, b, "nan") /\ ~MayFail(F, b, "panic")
=============================================================================
