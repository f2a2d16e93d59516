------------------------------- MODULE MC_Tiles -------------------------------
(* Tile coordinates on a small lattice: every position has one tile, or two  *)
(* (four) when half-way; chunks and local coordinates partition; a rectangle *)
(* of tiles is what a box covers.                                            *)
EXTENDS Tiles
VARIABLE w      \* the position being looked at
MCInit == TilemapInit /\ w = <<0, 0>>
Line == (-3 * Sub)..(3 * Sub)
MCNext == UNCHANGED tmvars /\ w = <<0, 0>> /\ \E x \in Line, y \in Line : w' = <<x, y>>
MCSpec == MCInit /\ [][MCNext]_<<tmvars, w>>
Cells == {<<x, y>> : x, y \in -5..5}
Halfway(x) == (x + Half) % Sub = 0
Count == (IF Halfway(w[1]) THEN 2 ELSE 1) * (IF Halfway(w[2]) THEN 2 ELSE 1)
Covered == LET T == {t \in Cells : MayTile(w, t)}
           IN /\ Cardinality(T) = Count /\ T = TilesAt(w, 0)
              /\ \A t \in T : \A u \in Cells : (w[1] - Sub * t[1]) * (w[1] - Sub * t[1]) <= (w[1] - Sub * u[1]) * (w[1] - Sub * u[1])
\* a tile has exactly one chunk and one place in it
Splits == \A t \in {w} : LET c == ChunkOf(t) p == LocalOf(t) IN
             /\ MaySplit(t, c, p, c)
             /\ \A dx, dy \in -1..1 : (dx # 0 \/ dy # 0) => LET d == <<c[1] + dx, c[2] + dy>> IN
                    ~MaySplit(t, d, p, d) /\ ~MaySplit(t, d, <<p[1] - Side * dx, p[2] - Side * dy>>, d)
\* the tiles of a box are those whose squares its corners are in, and all between
Boxes == \A h \in {<<0, 0>>, <<1, Sub>>, <<Sub, Half>>} :
           \A a \in {t \in Cells : MayTile(<<w[1] - h[1], w[2] - h[2]>>, t)}, b \in {t \in Cells : MayTile(<<w[1] + h[1], w[2] + h[2]>>, t)} :
             /\ MayQuantize(w, h, a, b, a, b) /\ a[1] <= b[1] + 1 /\ a[2] <= b[2] + 1
             /\ ~MayQuantize(w, h, <<a[1] - 2, a[2]>>, b, <<a[1] - 2, a[2]>>, b) /\ ~MayQuantize(w, h, a, <<b[1], b[2] + 2>>, a, <<b[1], b[2] + 2>>)
=============================================================================
