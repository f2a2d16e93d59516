-------------------------------- MODULE Space --------------------------------
(* Three dimensions: a bank of registers holding space transforms, a solid   *)
(* (box or ball) placed by one of them, and a point asked about.             *)
(*                                                                           *)
(* A transform means an affine map: a matrix m of nine entries, row by row,  *)
(* scaled by One, and a position p:  v |-> m v + p.                          *)
(* A solid means a box with half sizes h, grown by r; placed by a transform  *)
(* of uniform scale it is the same in the frame of the placement, k times    *)
(* as large.  Its signed distance to a point is known in closed form.        *)
(* Answers to queries are moves of the first of the two: what matters is     *)
(* where the point is, seen from the solid, after the move.                  *)
EXTENDS Ints

CONSTANTS One,     \* fixed-point one
          RelM, AbsM,   \* matrices may differ by 1/RelM + AbsM
          RelP, AbsP,   \* points may differ by 1/RelP + AbsP
          Band,    \* verdicts are judged outside of this distance from contact
          Tol      \* slack of lengths and places

VARIABLES regs,    \* transforms
          solid,   \* the solid: half sizes, radius, placement (m orthonormal, k, p)
          half     \* half sizes of the growing box
spvars == <<regs, solid, half>>

Ax == 1..3
Zero3 == <<0, 0, 0>>
IdM == <<One, 0, 0, 0, One, 0, 0, 0, One>>
Id3 == [m |-> IdM, p |-> Zero3]
Row(m, i) == <<m[3 * i - 2], m[3 * i - 1], m[3 * i]>>
Col(m, j) == <<m[j], m[j + 3], m[j + 6]>>
Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Add3(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Sub3(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Most(a) == Max2(Abs(a[1]), Max2(Abs(a[2]), Abs(a[3])))
Len3(a) == ISqrt(Dot3(a, a))

\* (written out: TLC keeps functions as unevaluated rules)
RDot(a, b) == RDivBig(Dot3(a, b), One)
Turned(m, v) == <<RDot(Row(m, 1), v), RDot(Row(m, 2), v), RDot(Row(m, 3), v)>>
TurnedBack(m, v) == <<RDot(Col(m, 1), v), RDot(Col(m, 2), v), RDot(Col(m, 3), v)>>
Image(T, v) == Add3(Turned(T.m, v), T.p)
MulRow(x, b) == <<RDot(x, Col(b, 1)), RDot(x, Col(b, 2)), RDot(x, Col(b, 3))>>
MulM(a, b) == MulRow(Row(a, 1), b) \o MulRow(Row(a, 2), b) \o MulRow(Row(a, 3), b)
\* S after T
After(S, T) == [m |-> MulM(S.m, T.m), p |-> Image(S, T.p)]
\* scale along the axes, then rotate (rotation R), then translate
BuildRow(x, k) == <<RDivBig(x[1] * k[1], One), RDivBig(x[2] * k[2], One), RDivBig(x[3] * k[3], One)>>
Build(R, k, p) == [m |-> BuildRow(Row(R, 1), k) \o BuildRow(Row(R, 2), k) \o BuildRow(Row(R, 3), k), p |-> p]
\* the same about a point
About(R, k, p) == LET B == Build(R, k, Zero3) IN [B EXCEPT !.p = Sub3(p, Turned(B.m, p))]

NearP(a, b, size) == \A i \in Ax : Abs(a[i] - b[i]) <= AbsP + size \div RelP
BigM(m) == Max2(One, Max2(Most(Row(m, 1)), Max2(Most(Row(m, 2)), Most(Row(m, 3)))))
NearM(a, b, size) == \A n \in 1..9 : Abs(a[n] - b[n]) <= AbsM + size \div RelM
Near(S, T, mm, pp) == NearM(S.m, T.m, mm) /\ NearP(S.p, T.p, pp)
BigOf(S, T) == Max2(BigM(S.m), BigM(T.m))
FarOf(S, T) == Max2(Most(S.p), Most(T.p))

MayBuild(R, k, p, T) == Near(T, Build(R, k, p), Max2(One, Most(k)), Most(p))
\* many equal steps about one point: the whole way about this point
MayRepeat(R, k, p, T) == Near(T, About(R, k, p), Max2(One, Most(k)), 3 * Most(p))
MayDefault(T) == T = Id3
MayCompose(S, T, X) == Near(X, After(S, T), BigOf(S, T), FarOf(S, T))
\* an error of 1/RelM in the inverse's matrix moves far points
MayInvert(S, X) == LET b == BigOf(S, X) f == FarOf(S, X)
                   IN Near(After(S, X), Id3, b, f) /\ Near(After(X, S), Id3, b, f)
MayDelta(S, T, X) == Near(After(S, X), T, BigOf(S, X), Max2(FarOf(S, T), FarOf(X, X)))
MayApply(S, p, q) == NearP(q, Image(S, p), Max2(Most(p), Most(q)))
MayUnapply(S, p, q) == NearP(p, Image(S, q), Max2(Most(p), Most(q)))
MayReturn(p, q) == NearP(p, q, Most(p))

-----------------------------------------------------------------------------
\* the solid S seen from outside: point q in the coordinates of the placement
Seen(S, q) == TurnedBack(S.m, Sub3(q, S.p))
Scaled(S, x) == RDivBig(x * S.k, One)
Over(S, q) == LET u == Seen(S, q) IN <<Abs(u[1]) - Scaled(S, S.h[1]), Abs(u[2]) - Scaled(S, S.h[2]), Abs(u[3]) - Scaled(S, S.h[3])>>
\* signed distance of q to S
Sd(S, q) == LET d == Over(S, q)
                most == Max2(d[1], Max2(d[2], d[3]))
            IN (IF most <= 0 THEN most ELSE Len3(<<Max2(d[1], 0), Max2(d[2], 0), Max2(d[3], 0)>>)) - Scaled(S, S.r)
Slack(S, q) == Tol + Abs(Sd(S, q)) \div RelP

\* where the point is, seen from the solid, after the first of the two moved by v
Moved(q, v, first) == IF first = "solid" THEN Sub3(q, v) ELSE Add3(q, v)

MayMeet(S, q, yes) == LET d == Sd(S, q) IN IF d > Band THEN ~yes ELSE IF d < -Band THEN yes ELSE TRUE
MayMeasure(S, q, d) == Abs(d - Sd(S, q)) <= Slack(S, q)
\* a vector onto the boundary, as short as possible: as long as the distance, and it ends there
Onto(S, q, v, first) ==
  /\ Abs(Len3(v) - Abs(Sd(S, q))) <= Slack(S, q) + 2
  /\ Abs(Sd(S, Moved(q, v, first))) <= Slack(S, q) + 2
\* none: no overlap
MayFree(S, q, some, v, first) ==
  IF some THEN Sd(S, q) <= Band /\ Onto(S, q, v, first) ELSE Sd(S, q) >= -Band

\* n: direction of length ROT
ROT == 16384
MaySupport3(S, n, p) ==
  /\ Sd(S, p) <= Tol
  /\ RDivBig(Dot3(n, p), ROT) >= RDivBig(Abs(n[1]) * S.h[1] + Abs(n[2]) * S.h[2] + Abs(n[3]) * S.h[3], ROT) + S.r - Tol

MayGrow(p, h) == h = <<Max2(half[1], Abs(p[1])), Max2(half[2], Abs(p[2])), Max2(half[3], Abs(p[3]))>>

-----------------------------------------------------------------------------
Put(r, T) == [i \in DOMAIN regs \cup {r} |-> IF i = r THEN T ELSE regs[i]]
NoSolid == [h |-> Zero3, r |-> 0, m |-> IdM, k |-> One, p |-> Zero3]
SpaceInit == regs = <<>> /\ solid = NoSolid /\ half = Zero3

Have(i) == i \in DOMAIN regs
New(r, R, k, p, T) == MayBuild(R, k, p, T) /\ regs' = Put(r, T) /\ UNCHANGED <<solid, half>>
Default(r, T) == MayDefault(T) /\ regs' = Put(r, T) /\ UNCHANGED <<solid, half>>
Repeat(r, R, k, p, T) == MayRepeat(R, k, p, T) /\ regs' = Put(r, T) /\ UNCHANGED <<solid, half>>
Compose(r, i, j, T) == Have(i) /\ Have(j) /\ MayCompose(regs[i], regs[j], T) /\ regs' = Put(r, T) /\ UNCHANGED <<solid, half>>
Invert(r, i, T) == Have(i) /\ MayInvert(regs[i], T) /\ regs' = Put(r, T) /\ UNCHANGED <<solid, half>>
Delta(r, i, j, T) == Have(i) /\ Have(j) /\ MayDelta(regs[i], regs[j], T) /\ regs' = Put(r, T) /\ UNCHANGED <<solid, half>>
Apply(i, p, q) == Have(i) /\ MayApply(regs[i], p, q) /\ UNCHANGED spvars
Unapply(i, p, q) == Have(i) /\ MayUnapply(regs[i], p, q) /\ UNCHANGED spvars
Return(p, q) == MayReturn(p, q) /\ UNCHANGED spvars

TakeSolid(h, r, m, k, p) == solid' = [h |-> h, r |-> r, m |-> m, k |-> k, p |-> p] /\ UNCHANGED <<regs, half>>
Meet(q, yes) == MayMeet(solid, q, yes) /\ UNCHANGED spvars
Measure(q, d) == MayMeasure(solid, q, d) /\ UNCHANGED spvars
Free(q, some, v, first) == MayFree(solid, q, some, v, first) /\ UNCHANGED spvars
Vector(q, v, first) == Onto(solid, q, v, first) /\ UNCHANGED spvars
Support3(n, p) == MaySupport3(solid, n, p) /\ UNCHANGED spvars
StartBox(h) == half' = h /\ UNCHANGED <<regs, solid>>
Grow(p, h) == MayGrow(p, h) /\ half' = h /\ UNCHANGED <<regs, solid>>
=============================================================================
