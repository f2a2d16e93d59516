------------------------------ MODULE Geometry ------------------------------
(* Exact planar geometry of placed convex shapes on an integer lattice: the  *)
(* oracle that decides what a collision query is allowed to answer.          *)
(*                                                                           *)
(* A shape is a convex polygon P (sequence of lattice points, counter-       *)
(* clockwise; one point and two points are allowed) inflated by a disc of    *)
(* radius r.  Balls are one point + r, boxes and polygons have r = 0.        *)
(* Everything about two placed shapes A and B is a fact about the Minkowski  *)
(* difference D = A (-) B = {a - b}:                                         *)
(*   - the interiors overlap  iff  0 is interior to D;                       *)
(*   - the signed distance of A and B is the signed distance of 0 to D;      *)
(*   - moving A by v brings A and B into exact contact with |v| minimal iff  *)
(*     -v is the point of the boundary of D closest to 0.                    *)
(* D is never constructed; it is known through its support function          *)
(* h(n) = max {n.d : d in D}, as in the library, but exactly.                *)
EXTENDS Ints, SequencesExt

Vx(a) == a[1]
Vy(a) == a[2]
Dot(a, b) == a[1] * b[1] + a[2] * b[2]
Cross(a, b) == a[1] * b[2] - a[2] * b[1]
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Neg(a) == <<-a[1], -a[2]>>
\* length of a vector, rounded down; components up to 32000
VLen(a) == ISqrt(a[1] * a[1] + a[2] * a[2])

ROT == 16384     \* fixed-point one of rotation components and scales

(* A placement: rotation (c, s)/ROT, uniform scale k/ROT, translation (x, y);*)
(* scale first, then rotate, then translate.                                 *)
Identity == [c |-> ROT, s |-> 0, k |-> ROT, x |-> 0, y |-> 0]
Turn(T, v) == IF T.s = 0 /\ T.c = ROT THEN v
              ELSE <<RDivBig(T.c * v[1] - T.s * v[2], ROT),
                     RDivBig(T.s * v[1] + T.c * v[2], ROT)>>
Resize(T, v) == IF T.k = ROT THEN v
                ELSE <<RDivBig(T.k * v[1], ROT), RDivBig(T.k * v[2], ROT)>>
PlacePoint(T, v) == Add(Turn(T, Resize(T, v)), <<T.x, T.y>>)
PlacePoly(T, P) == [i \in 1..Len(P) |-> PlacePoint(T, P[i])]
PlaceRadius(T, r) == RDivBig(T.k * r, ROT)

-----------------------------------------------------------------------------
\* largest / smallest element of a non-empty sequence of numbers
MaxOf(S) == FoldLeft(LAMBDA m, x : IF x > m THEN x ELSE m, S[1], S)
MinOf(S) == FoldLeft(LAMBDA m, x : IF x < m THEN x ELSE m, S[1], S)

\* support function of a point sequence
Sup(P, n) == FoldLeft(LAMBDA m, p : LET d == n[1] * p[1] + n[2] * p[2] IN IF d > m THEN d ELSE m,
                      n[1] * P[1][1] + n[2] * P[1][2], P)

(* Bring the larger component of a direction near 8192, so that its integer  *)
(* length is precise and products stay small.  Enlarging is exact; shrinking *)
(* changes the direction slightly, which only matters where the exact        *)
(* direction does (edge normals are never long enough to be shrunk).         *)
Fit(n) == LET m == Max2(Abs(n[1]), Abs(n[2]))
          IN IF m = 0 THEN n
             ELSE IF m <= 8192 THEN LET f == 8192 \div m IN <<f * n[1], f * n[2]>>
             ELSE n
Shrink(n) == LET m == Max2(Abs(n[1]), Abs(n[2]))
                 f == m \div 8192 + 1
             IN IF m <= 8192 THEN n ELSE <<RDiv(n[1], f), RDiv(n[2], f)>>

\* outward normals of the edges of a counter-clockwise polygon
EdgeNormals(P) ==
  IF Len(P) < 2 THEN <<>>
  ELSE [i \in 1..Len(P) |->
          LET j == IF i = Len(P) THEN 1 ELSE i + 1
          IN Fit(<<P[j][2] - P[i][2], P[i][1] - P[j][1]>>)]

Axes == << <<8192, 0>>, <<-8192, 0>>, <<0, 8192>>, <<0, -8192>> >>

(* Half-planes of the polygonal part of D: every edge normal of A and every  *)
(* reversed edge normal of B, with the exact support value and the length.   *)
HalfPlanes(A, B) ==
  LET nb == EdgeNormals(B)
      ns == SelectSeq(EdgeNormals(A) \o [i \in 1..Len(nb) |-> Neg(nb[i])], LAMBDA n : n # <<0, 0>>) \o Axes
  IN [i \in 1..Len(ns) |-> [n |-> ns[i], h |-> Sup(A, ns[i]) + Sup(B, Neg(ns[i])), len |-> VLen(ns[i])]]

\* largest separation of point q from D over the half-planes: how far q is
\* outside (a lower bound), or minus how deep it is inside (exact)
SepOf(H, q) == FoldLeft(LAMBDA m, p : Max2(m, (Dot(p.n, q) - p.h) \div p.len),
                        (Dot(H[1].n, q) - H[1].h) \div H[1].len, H)

(* Distance of point q to the polygonal part of D, when q is outside: the    *)
(* largest separation over edge directions and over directions from vertices *)
(* of D to q (one of them is the direction of the closest point).            *)
SepAlong(A, B, q, m) == LET n == Shrink(Fit(m))
                            l == VLen(n)
                        IN IF l = 0 THEN 0
                           ELSE (Dot(n, q) - (Sup(A, n) + Sup(B, Neg(n)))) \div l
DistOutside(H, A, B, q) ==
  LET na == Len(A)
      nb == Len(B)
  IN Max2(SepOf(H, q),
          MaxOf([k \in 1..(na * nb) |->
                   SepAlong(A, B, q, Sub(q, Sub(A[(k - 1) \div nb + 1], B[((k - 1) % nb) + 1])))]))

Origin == <<0, 0>>

(* Everything the oracle needs to know about two placed shapes.  sdKnown:    *)
(* sd is the signed distance to within a unit or two; otherwise only its     *)
(* sign (and, when negative, its value) is.                                  *)
FactsOf(A, ra, B, rb) ==
  LET H == HalfPlanes(A, B)
      sep == SepOf(H, Origin)
      r == ra + rb
      small == Len(A) * Len(B) <= 64
      sdP == IF sep > 0 /\ small THEN Max2(sep, DistOutside(H, A, B, Origin)) ELSE sep
  IN [H |-> H, A |-> A, B |-> B, r |-> r, sd |-> sdP - r, sdKnown |-> sep <= 0 \/ small,
      size |-> MaxOf([i \in 1..Len(A) |-> Max2(Abs(A[i][1]), Abs(A[i][2]))]
                     \o [i \in 1..Len(B) |-> Max2(Abs(B[i][1]), Abs(B[i][2]))]) + r]

(* Verdict: "in" = overlapping, "out" = apart, "touch" = within the band (or *)
(* not decided here).                                                        *)
Verdict(F, band) == IF F.sd <= -band THEN (IF F.sdKnown THEN "in" ELSE "touch")
                    ELSE IF F.sd >= band THEN "out" ELSE "touch"

(* Vectors are given as a direction n (components scaled by ROT, so of       *)
(* length ROT, or <<0, 0>>) and a length m.                                  *)

(* Moving A by m along n separates overlapping shapes minimally, to within   *)
(* relative error 1/inv and absolute error tol.                              *)
OverlapOK(F, n, m, inv, tol) ==
  LET depth == -F.sd
      p == Neg(n)
  IN /\ m <= depth + depth \div inv + tol
     /\ m >= depth - depth \div inv - tol
     \* D ends before m in the direction p: the move really separates
     /\ RDivBig(Sup(F.A, p) + Sup(F.B, n), ROT) + F.r <= m + m \div inv + tol

(* Moving A by m along n bridges the gap between shapes that are apart.      *)
ApartOK(F, n, m, inv, tol) ==
  LET p == <<-RDivBig(n[1] * m, ROT), -RDivBig(n[2] * m, ROT)>>
  IN \* p belongs to D (so the shapes do meet after the move) ...
     /\ SepOf(F.H, p) <= F.r + tol
     /\ (F.r > 0 /\ Len(F.A) * Len(F.B) <= 64) => DistOutside(F.H, F.A, F.B, p) <= F.r + tol
     \* ... and the whole of D is about as far away: no shorter move does
     /\ -RDivBig(Sup(F.A, n) + Sup(F.B, Neg(n)), ROT) - F.r >= m - m \div inv - tol

\* scalar signed distance
ScalarOK(F, x, inv, tol) == F.sdKnown => Abs(x - F.sd) <= Abs(F.sd) \div inv + tol
=============================================================================
