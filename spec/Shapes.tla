-------------------------------- MODULE Shapes --------------------------------
(* Shapes by themselves: support points of a (placed) shape, symmetric       *)
(* bounding boxes that grow, and how polygons are made.                      *)
(*                                                                           *)
(* State:  shape  the shape being asked about: polygon P and radius r,       *)
(*                already placed                                             *)
(*         half   the bounding box being grown: half sizes <<hx, hy>>        *)
EXTENDS Geometry

CONSTANTS Slack,      \* absolute slack of lattice rounding
          FullTurn    \* steps of a full turn

VARIABLES shape, half
svars == <<shape, half>>

NoShape == [on |-> FALSE]
ShapesInit == shape = NoShape /\ half = <<0, 0>>

Pt == << <<0, 0>> >>
TakeShape(P, r, T) ==
  LET A == PlacePoly(T, P)
  IN /\ shape' = [on |-> TRUE, A |-> A, r |-> PlaceRadius(T, r), H |-> HalfPlanes(A, Pt)]
     /\ UNCHANGED half

\* does point p belong to the shape, up to slack?
Belongs(S, p) == IF S.r = 0 THEN SepOf(S.H, p) <= Slack
                 ELSE DistOutside(S.H, S.A, Pt, p) <= S.r + Slack
\* n: direction of length ROT
Farthest(S, n, p) == RDivBig(Dot(n, p), ROT) >= RDivBig(Sup(S.A, n), ROT) + S.r - Slack
MaySupport(n, p) == Belongs(shape, p) /\ Farthest(shape, n, p)
Support(n, p) == shape.on /\ MaySupport(n, p) /\ UNCHANGED svars

\* half sizes of the smallest origin-centred box around the shape
HalfOf(S) == << MaxOf([i \in 1..Len(S.A) |-> Abs(S.A[i][1])]) + S.r,
                MaxOf([i \in 1..Len(S.A) |-> Abs(S.A[i][2])]) + S.r >>
MayBound(h) == LET k == HalfOf(shape) IN Abs(h[1] - k[1]) <= 1 /\ Abs(h[2] - k[2]) <= 1
Bound(h) == shape.on /\ MayBound(h) /\ UNCHANGED svars

\* growing
Grown(h, p) == <<Max2(h[1], Abs(p[1])), Max2(h[2], Abs(p[2]))>>
StartBox(h) == half' = h /\ UNCHANGED shape
MayCover(p, h) == h = Grown(half, p)
CoverPoint(p, h) == MayCover(p, h) /\ half' = h /\ UNCHANGED shape

-----------------------------------------------------------------------------
\* angles on a circle of FullTurn steps
Apart(t, u) == LET d == (t - u) % FullTurn IN Min2(d, FullTurn - d)
\* corners as <<angle, radius in millionths of the requested radius>>
MayRegular(n, up, pts) ==
  /\ Len(pts) = n
  /\ \A i \in 1..Len(pts) :
        LET a == ((i - 1) * FullTurn) \div n
        IN /\ Apart(pts[i][1], IF up THEN FullTurn \div 4 - a ELSE a) <= 4
           /\ Abs(pts[i][2] - 1000000) <= 50
\* the given points, bit for bit
MayKeep(given, kept) == given = kept

\* no corner lies as far as another one in that one's own direction
\* (equally far, or so to single precision: either answer)
Ties(P) == \E i, j \in 1..Len(P) : i # j /\ Abs(Dot(P[i], P[j]) - Dot(P[i], P[i])) <= Dot(P[i], P[i]) \div 1000000
Strict(P) == \A i, j \in 1..Len(P) : i # j => Dot(P[i], P[j]) < Dot(P[i], P[i])
MayStrict(P, ok) == Ties(P) \/ ok = Strict(P)

Grows == [][shape' = shape => \A k \in 1..2 : half'[k] >= half[k]]_svars
=============================================================================
