-------------------------------- MODULE Scene --------------------------------
(* A scene of placed convex shapes, the questions a user asks about ordered  *)
(* pairs of them, the answers the library may give, and the moves made with  *)
(* those answers.                                                            *)
(*                                                                           *)
(* State                                                                     *)
(*   bodies : id -> [P, r, T]   local shape and placement                    *)
(*   focus  : the pair being asked about, with the facts about it            *)
(*   said   : the verdicts given about the focus pair so far                 *)
(*   due    : pairs brought into contact by a move with an answer and not    *)
(*            moved since, with the slack of that promise                    *)
(* Every answer is an action, enabled only for permitted answers.  Judge     *)
(* selects which aspects of an answer are constrained (all of them in the    *)
(* full specification):                                                      *)
(*   "verdict" colliding or not          "in"   vector of overlapping shapes *)
(*   "out" vector of shapes apart        "sdf"  scalar signed distance       *)
(*   "due" effect of moves               "life" every call returns, finite   *)
EXTENDS Geometry

CONSTANTS Band,      \* |signed distance| below this: contact, either verdict
          Tol,       \* absolute slack of lattice rounding
          Judge

VARIABLES bodies, focus, said, due
vars == <<bodies, focus, said, due>>

AllAspects == {"verdict", "in", "out", "sdf", "due", "life"}

NoFocus == [on |-> FALSE]
NoDue == {}
SceneInit == bodies = <<>> /\ focus = NoFocus /\ said = {} /\ due = NoDue

Placed(b) == PlacePoly(b.T, b.P)

\* facts about the ordered pair (i, j) as the library must see them
PairFacts(i, j) == FactsOf(Placed(bodies[i]), PlaceRadius(bodies[i].T, bodies[i].r),
                           Placed(bodies[j]), PlaceRadius(bodies[j].T, bodies[j].r))

\* convex and counter-clockwise, up to rounding of the corners
ConvexCcw(P) == \A i \in 1..Len(P) :
                   LET j == (i % Len(P)) + 1
                       k == (j % Len(P)) + 1
                   IN Len(P) < 3 \/ Cross(Sub(P[j], P[i]), Sub(P[k], P[j]))
                                      >= -2 * (VLen(Sub(P[j], P[i])) + VLen(Sub(P[k], P[j])))

-----------------------------------------------------------------------------
(* What may be answered about a pair with facts F.  s = 1 when the pair is   *)
(* asked about in order, -1 when the two shapes are swapped (the vector then *)
(* moves the other shape, which is moving the first one the other way).      *)
BandOf(F) == Max2(Band, F.size \div 2048)
Where(F) == Verdict(F, BandOf(F))

Says(w, b) == "verdict" \in Judge => ((w = "in" => b) /\ (w = "out" => ~b))
Moves(F, w, n, m, s, inv) ==
  LET u == IF s = 1 THEN n ELSE Neg(n)
  IN /\ (w = "in" /\ "in" \in Judge) => OverlapOK(F, u, m, inv, Tol)
     /\ (w = "out" /\ "out" \in Judge) => ApartOK(F, u, m, inv, Tol)
\* shapes in contact need next to no move, whichever way they are judged
Little(F, w, side, m) == (w = "touch" /\ side \in Judge /\ F.sdKnown) => m <= Abs(F.sd) + BandOf(F) + Tol

MayCollide(F, b) == Says(Where(F), b)

MayPenetrate(F, some, n, m, s, inv) ==
  LET w == Where(F)
  IN /\ Says(w, some)
     /\ (w = "in" /\ "in" \in Judge) => some
     /\ w = "in" => Moves(F, w, n, m, s, inv)
     /\ some => Little(F, w, "in", m)

MayDistance(F, some, n, m, s, inv) ==
  LET w == Where(F)
  IN /\ Says(w, ~some)
     /\ (w = "out" /\ "out" \in Judge) => some
     /\ w = "out" => Moves(F, w, n, m, s, inv)
     /\ some => Little(F, w, "out", m)

MaySdfv(F, b, n, m, s, inv) ==
  LET w == Where(F)
  IN Says(w, b) /\ Moves(F, w, n, m, s, inv) /\ Little(F, w, IF b THEN "in" ELSE "out", m)

MaySdf(F, x, inv) == "sdf" \in Judge => ScalarOK(F, x, inv, Tol)

(* A call that did not return a usable answer.  why: "nan" / "big": a vector *)
(* that is not finite or far outside the scene, tolerated only in exact      *)
(* contact; "panic" / "runaway": never allowed.                              *)
MayFail(F, b, why) ==
  LET w == Where(F)
  IN IF why \in {"nan", "big"}
     THEN w # "touch" => (Judge \cap {"life", w, "sdf"} = {} /\ Says(w, b))
     ELSE Judge = {}

-----------------------------------------------------------------------------
(* Actions *)
SetBody(i, P, r, T) ==
  /\ ConvexCcw(P) /\ r >= 0 /\ T.k > 0
  /\ bodies' = [k \in DOMAIN bodies \cup {i} |-> IF k = i THEN [P |-> P, r |-> r, T |-> T] ELSE bodies[k]]
  /\ focus' = NoFocus /\ said' = {} /\ due' = NoDue

\* the promises left when body i moves
Without(i) == {d \in due : i \notin d.pair}
MoveBody(i, T) ==
  /\ i \in DOMAIN bodies
  /\ bodies' = [bodies EXCEPT ![i].T = T]
  /\ focus' = NoFocus /\ said' = {} /\ due' = Without(i)

\* Asking about a pair.  A move made with an answer about this pair must have
\* had its effect: the pair is in contact.
DueFor(i, j) == {d \in due : d.pair = {i, j}}
DueMet(F, i, j) == "due" \in Judge => \A d \in DueFor(i, j) : ~F.sdKnown \/ Abs(F.sd) <= d.slack
FocusOn(i, j) ==
  /\ i \in DOMAIN bodies /\ j \in DOMAIN bodies /\ i # j
  /\ LET F == PairFacts(i, j)
     IN /\ DueMet(F, i, j)
        /\ focus' = [on |-> TRUE, i |-> i, j |-> j, F |-> F]
  /\ said' = {}
  /\ UNCHANGED <<bodies, due>>

AnswerCollides(b) ==
  /\ focus.on /\ MayCollide(focus.F, b)
  /\ said' = said \cup {b} /\ UNCHANGED <<bodies, focus, due>>
AnswerPenetrates(some, n, m, s, inv) ==
  /\ focus.on /\ MayPenetrate(focus.F, some, n, m, s, inv)
  /\ said' = said \cup {some} /\ UNCHANGED <<bodies, focus, due>>
AnswerDistance(some, n, m, s, inv) ==
  /\ focus.on /\ MayDistance(focus.F, some, n, m, s, inv)
  /\ said' = said \cup {~some} /\ UNCHANGED <<bodies, focus, due>>
AnswerSdfv(b, n, m, s, inv) ==
  /\ focus.on /\ MaySdfv(focus.F, b, n, m, s, inv)
  /\ said' = said \cup {b} /\ UNCHANGED <<bodies, focus, due>>
AnswerSdf(x, inv) ==
  /\ focus.on /\ MaySdf(focus.F, x, inv)
  /\ UNCHANGED vars
NoAnswer(b, why) ==
  /\ focus.on /\ MayFail(focus.F, b, why)
  /\ UNCHANGED vars

(* Using an answer: the first body of the pair moves by m along n, as it was *)
(* told (placement afterwards: T, equal up to rounding).                     *)
Push(n, m, T, inv) ==
  /\ focus.on
  /\ LET old == bodies[focus.i].T
     IN /\ T.c = old.c /\ T.s = old.s /\ T.k = old.k
        /\ Abs(T.x - old.x - RDivBig(n[1] * m, ROT)) <= 2
        /\ Abs(T.y - old.y - RDivBig(n[2] * m, ROT)) <= 2
  /\ bodies' = [bodies EXCEPT ![focus.i].T = T]
  /\ due' = Without(focus.i) \cup {[pair |-> {focus.i, focus.j}, slack |-> Abs(focus.F.sd) \div inv + Tol + 4]}
  /\ focus' = NoFocus /\ said' = {}

-----------------------------------------------------------------------------
\* Outside contact, all answers about a pair agree.
Consistent == (focus.on /\ "verdict" \in Judge) => (Where(focus.F) = "touch" \/ Cardinality(said) <= 1)
=============================================================================
