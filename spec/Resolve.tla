------------------------------- MODULE Resolve -------------------------------
(* Pushing a mover (a ball or a box) out of the solid tiles of a map.        *)
(*                                                                           *)
(* The tiles under the mover's first bounding box are visited in the order   *)
(* the direction of motion asks for; out of each solid one that the mover    *)
(* overlaps at that moment it is pushed by the shortest way.  Lengths are in *)
(* steps, Tile of them per tile.                                             *)
(*                                                                           *)
(* State                                                                     *)
(*   solid  the solid tiles          mover  [ball, h]  half sizes / radius   *)
(*   at     where the mover may be: a set of candidates                      *)
(*            [p   position             s  how far it may really be from p   *)
(*             still  never pushed      any  no longer known]                *)
(*   todo   tiles still to visit                                             *)
(* Candidates are needed because shortest ways can tie and because pushes    *)
(* found by iteration may lead a little aside.                               *)
EXTENDS Ints, SequencesExt, FiniteSets
CONSTANTS Tile,      \* steps per tile
          Fine,      \* rounding slack, in steps
          Lost       \* a candidate known no better than this counts as unknown
VARIABLES solid, mover, at, todo
resvars == <<solid, mover, at, todo>>

Hf == Tile \div 2
Cand(p, s, still) == [p |-> p, s |-> s, still |-> still, any |-> s > Lost]
Unknown == [p |-> <<0, 0>>, s |-> 0, still |-> FALSE, any |-> TRUE]
Sgn(x) == IF x < 0 THEN -1 ELSE 1
With(p, k, x) == [p EXCEPT ![k] = x]
Other(k) == 3 - k

\* ---- a box of half sizes h out of the tile centred on t
BoxOut(h, c, t) ==
  LET d == <<c.p[1] - t[1], c.p[2] - t[2]>>
      o == <<h[1] + Hf - Abs(d[1]), h[2] + Hf - Abs(d[2])>>
      m == Min2(o[1], o[2])
      eps == 2 * c.s + Fine
      \* axes along which a push could be the shortest
      ways == {k \in {1, 2} : o[k] <= m + eps + m \div 64}
  IN IF m <= -(c.s + Fine) THEN {c}
     ELSE IF m <= c.s + Fine
     THEN \* just touching: pushed a little, or not
          LET loose == {k \in {1, 2} : Abs(o[k]) <= 3 * c.s + 2 * Fine}
              w == IF loose = {} THEN 0 ELSE CHOOSE x \in {Abs(o[k]) : k \in loose} : \A k \in loose : Abs(o[k]) <= x
          IN {Cand(c.p, Max2(c.s, w) + Fine, FALSE)}
     ELSE UNION {LET signs == IF 2 * Abs(d[k]) <= eps + m \div 64 THEN {1, -1} ELSE {Sgn(d[k])}
                 IN {Cand(With(c.p, k, t[k] + g * (h[k] + Hf)), c.s + o[k] \div 64 + Fine, FALSE) : g \in signs} : k \in ways}

\* ---- a ball of radius r
BallOut(r, c, t) ==
  LET d == <<c.p[1] - t[1], c.p[2] - t[2]>>
      f == <<Hf - Abs(d[1]), Hf - Abs(d[2])>>         \* depth of the centre below the faces
      eps == 2 * c.s + Fine
      \* centre beside face k of the tile (or inside it)
      beside(k) == f[Other(k)] >= -(c.s + Fine)
      corner == f[1] < c.s + Fine /\ f[2] < c.s + Fine
      \* out through face k
      m == Min2(f[1], f[2])
      facePush(k) ==
        LET o == r + f[k]
            signs == IF 2 * Abs(d[k]) <= eps + o \div 64 THEN {1, -1} ELSE {Sgn(d[k])}
        IN IF o <= -(c.s + Fine) THEN {c}
           ELSE IF o <= c.s + Fine THEN {Cand(c.p, Max2(c.s, Abs(o)) + Fine, FALSE)}
           ELSE \* near an end of the face the nearly shortest way may slant round the corner
                LET room == f[Other(k)] - c.s
                    reach == IF room <= 0 THEN Lost + 1 ELSE (r * o) \div (64 * room)
                    slant == IF reach < room THEN o \div 24 ELSE reach
                IN {Cand(With(c.p, k, t[k] + g * (r + Hf)), c.s + slant + Fine, FALSE) : g \in signs}
      e == <<Max2(0, -f[1]), Max2(0, -f[2])>>
      dist == ISqrt(e[1] * e[1] + e[2] * e[2])
      \* off a corner of the tile
      cornerPush ==
        LET o == r - dist
        IN IF o <= -(c.s + Fine) THEN {c}
           ELSE IF dist <= 4 * (c.s + Fine) THEN {Unknown}
           ELSE IF o <= c.s + Fine THEN {Cand(c.p, c.s + Abs(o) + Fine, FALSE)}
           ELSE {Cand(<<t[1] + Sgn(d[1]) * (Hf + (e[1] * r) \div dist), t[2] + Sgn(d[2]) * (Hf + (e[2] * r) \div dist)>>,
                      c.s + (c.s * o) \div dist + (o * ISqrt((32 * r) \div dist)) \div 32 + o \div 64 + 2 * Fine, FALSE)}
  IN IF dist > r + c.s + Fine THEN {c}
     ELSE IF f[1] >= c.s + Fine /\ f[2] >= c.s + Fine
     THEN \* centre inside: through a nearest face
          UNION {facePush(k) : k \in {k \in {1, 2} : f[k] <= m + eps + (r + m) \div 64}}
     ELSE (IF corner THEN cornerPush ELSE {})
          \cup UNION {facePush(k) : k \in {k \in {1, 2} : beside(k) /\ f[k] <= m + eps + Max2(0, r + m) \div 64}}

OutOf(mv, c, tile) ==
  IF c.any THEN {c}
  ELSE LET t == <<tile[1] * Tile, tile[2] * Tile>>
       IN IF mv.ball THEN BallOut(mv.h[1], c, t) ELSE BoxOut(mv.h, c, t)

\* ---- which tiles, in which order
NearTiles(w) == {t \in {(w - Hf - 1) \div Tile, (w - Hf - 1) \div Tile + 1, (w + Hf + 1) \div Tile} : Abs(w - Tile * t) <= Hf + 1}
Range1(a, b, back) == IF back THEN [i \in 1..(b - a + 1) |-> b - i + 1] ELSE [i \in 1..(b - a + 1) |-> a + i - 1]
Cells(x0, x1, y0, y1, left, down) ==
  LET xs == Range1(x0, x1, left)
      ys == Range1(y0, y1, down)
      n == Len(xs)
  IN [i \in 1..(n * Len(ys)) |-> <<xs[((i - 1) % n) + 1], ys[((i - 1) \div n) + 1]>>]
\* all the tours the rounding of the corners leaves open, solid tiles only
Tours(p, h, left, down, sol) ==
  {SelectSeq(Cells(x0, x1, y0, y1, left, down), LAMBDA t : t \in sol) :
     x0 \in NearTiles(p[1] - h[1]), x1 \in NearTiles(p[1] + h[1]),
     y0 \in NearTiles(p[2] - h[2]), y1 \in NearTiles(p[2] + h[2])}

-----------------------------------------------------------------------------
ResolveInit == solid = {} /\ mover = [ball |-> TRUE, h |-> <<1, 1>>] /\ at = {} /\ todo = <<>>
TakeMap(s) == solid' = s /\ at' = {} /\ todo' = <<>> /\ UNCHANGED mover
Enter(mv, p, left, down) ==
  /\ mover' = mv
  /\ at' = {Cand(p, 0, TRUE)}
  /\ todo' \in Tours(p, mv.h, left, down, solid)
  /\ UNCHANGED solid
Visit == /\ todo # <<>>
         /\ at' = UNION {OutOf(mover, c, Head(todo)) : c \in at}
         /\ todo' = Tail(todo)
         /\ UNCHANGED <<solid, mover>>

\* signed gap between the mover at p and a tile (in steps, rounded down)
Gap(mv, p, tile) ==
  LET d == <<Abs(p[1] - tile[1] * Tile), Abs(p[2] - tile[2] * Tile)>>
      q == IF mv.ball THEN <<d[1] - Hf, d[2] - Hf>> ELSE <<d[1] - Hf - mv.h[1], d[2] - Hf - mv.h[2]>>
      out == <<Max2(0, q[1]), Max2(0, q[2])>>
      g == IF q[1] > 0 \/ q[2] > 0 THEN ISqrt(out[1] * out[1] + out[2] * out[2]) ELSE Max2(q[1], q[2])
  IN IF mv.ball THEN g - mv.h[1] ELSE g
\* moved from p, where it overlapped the tile, to touching it, not (much) farther than necessary
Touches(mv, p, to, tile) ==
  LET deep == Max2(0, -Gap(mv, p, tile))
      d == <<to[1] - p[1], to[2] - p[2]>>
  IN /\ Abs(Gap(mv, to, tile)) <= 2 * Fine + deep \div 64
     /\ ISqrt(d[1] * d[1] + d[2] * d[2]) <= deep + deep \div 64 + 2 * Fine

RECURSIVE Walk(_, _, _)
Walk(mv, cs, tour) == IF tour = <<>> THEN cs
                      ELSE IF Cardinality(cs) > 12 THEN {Unknown}
                      ELSE Walk(mv, UNION {OutOf(mv, c, Head(tour)) : c \in cs}, Tail(tour))
Fits(c, to, same) == \/ c.any
                     \/ IF c.still THEN same ELSE \A k \in 1..2 : Abs(to[k] - c.p[k]) <= c.s + Fine
MayEndAt(sol, mv, p, left, down, to, same) ==
  \E tour \in Tours(p, mv.h, left, down, sol) :
    \E c \in Walk(mv, {Cand(p, 0, TRUE)}, tour) :
      /\ Fits(c, to, same)
      /\ (Len(tour) = 1 /\ ~same) => Touches(mv, p, to, tour[1])
\* how often the answer is really pinned down
Pinned(sol, mv, p, left, down) ==
  \A tour \in Tours(p, mv.h, left, down, sol) : \A c \in Walk(mv, {Cand(p, 0, TRUE)}, tour) : ~c.any

-----------------------------------------------------------------------------
Finished == todo = <<>> /\ at # {}
\* nothing solid: nothing moves
FreeStays == Finished /\ solid = {} => \A c \in at : c.still
\* a single solid tile is left just touching
OneTileTouches == Finished /\ Cardinality(solid) = 1 => \A c \in at : c.any \/ c.still \/ \A t \in solid : Abs(Gap(mover, c.p, t)) <= c.s + Fine + 2
=============================================================================
