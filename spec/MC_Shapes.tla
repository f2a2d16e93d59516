------------------------------ MODULE MC_Shapes ------------------------------
(* Shapes on a coarse lattice against first principles: membership by        *)
(* corners of triangles, farthest points and bounding boxes by trying every  *)
(* lattice point, growing boxes by every order of three points.              *)
EXTENDS Shapes
CONSTANTS Wide
U == 512
Polys == { << <<0, 0>> >>, << <<2, 1>>, <<-2, 1>>, <<-2, -1>>, <<2, -1>> >>, << <<2, 0>>, <<0, 2>>, <<-2, 0>>, <<0, -2>> >>,
           << <<2, -1>>, <<-1, 2>>, <<-1, -1>> >>, << <<2, 0>>, <<1, 2>>, <<-1, 2>>, <<-2, 0>>, <<-1, -2>>, <<1, -2>> >>, << <<3, 1>>, <<1, 2>>, <<-3, -2>> >> }
Up(P) == [i \in 1..Len(P) |-> <<U * P[i][1], U * P[i][2]>>]
Turns == { <<ROT, 0>>, <<0, ROT>>, <<-ROT, 0>>, <<0, -ROT>> }
Moves == { <<0, 0>>, <<1, -2>> }
Grid == {<<U * x, U * y>> : x, y \in -Wide..Wide}
Hand == {<<U * x, U * y>> : x, y \in -1..1}
Dirs == { <<ROT, 0>>, <<0, -ROT>>, <<9830, 13107>>, <<-13107, 9830>>, <<-11585, -11585>> }
\* (the first step only spreads the shapes over the workers)
MCNext ==
  \/ ~shape.on /\ half = <<0, 0>> /\ \E x \in 1..8 : StartBox(<<x, 0>>)
  \/ ~shape.on /\ half[1] \in 1..8 /\ \E P \in Polys, r \in {0, U}, t \in Turns, k \in {1, 2}, m \in Moves :
       (r = 0 \/ Len(P) = 1) /\ half[1] = k + (IF t[1] = 0 THEN 2 ELSE 0) + (IF t[1] + t[2] > 0 THEN 4 ELSE 0) /\ TakeShape(Up(P), r, [c |-> t[1], s |-> t[2], k |-> k * ROT, x |-> U * m[1], y |-> U * m[2]])
  \/ ~shape.on /\ half # <<3 * U, 3 * U>> /\ \E p \in Hand \cup {<<2 * U, -3 * U>>} : CoverPoint(p, Grown(half, p))
MCSpec == ShapesInit /\ [][MCNext]_svars
\* q is in the triangle abc (any of them may coincide)
Left(a, b, q) == Cross(Sub(b, a), Sub(q, a))
InTri(a, b, c, q) == /\ \/ Left(a, b, q) >= 0 /\ Left(b, c, q) >= 0 /\ Left(c, a, q) >= 0
                        \/ Left(a, b, q) <= 0 /\ Left(b, c, q) <= 0 /\ Left(c, a, q) <= 0
                     /\ Min2(a[1], Min2(b[1], c[1])) <= q[1] /\ q[1] <= Max2(a[1], Max2(b[1], c[1]))
                     /\ Min2(a[2], Min2(b[2], c[2])) <= q[2] /\ q[2] <= Max2(a[2], Max2(b[2], c[2]))
Corners(S) == {S.A[i] : i \in 1..Len(S.A)}
Has(S, q) == IF S.r > 0 THEN VLen(Sub(q, S.A[1])) <= S.r
             ELSE \E a, b, c \in Corners(S) : InTri(a, b, c, q)
Membership == shape.on => \A q \in Grid : Belongs(shape, q) <=> Has(shape, q)
\* a support point that may be reported is as far as any point of the shape; one may be reported
SupportsRight == (shape.on /\ shape.r = 0) =>
    LET Mine == {q \in Grid : Has(shape, q)} IN \A n \in Dirs :
    LET far == CHOOSE d \in {Dot(n, q) : q \in Mine} : \A q \in Mine : Dot(n, q) <= d
    IN /\ \E p \in Corners(shape) : MaySupport(n, p)
       /\ \A p \in Grid : MaySupport(n, p) <=> p \in Mine /\ far \div ROT <= Dot(n, p) \div ROT + Slack + 1
BoundsTight == shape.on =>
    LET h == HalfOf(shape) IN
    /\ MayBound(h) /\ ~MayBound(<<h[1] - 8, h[2]>>) /\ ~MayBound(<<h[1], h[2] + 8>>)
    /\ \A q \in Grid : Has(shape, q) => Abs(q[1]) <= h[1] /\ Abs(q[2]) <= h[2]
\* a box that grew covers what it was shown, in whatever order
OrderFree == \A p, q \in Hand : Grown(Grown(half, p), q) = Grown(Grown(half, q), p) /\ Grown(Grown(half, p), p) = Grown(half, p)
Never == half[1] >= 0 /\ half[2] >= 0
=============================================================================
