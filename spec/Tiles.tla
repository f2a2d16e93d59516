-------------------------------- MODULE Tiles --------------------------------
(* Tile coordinates and points against tilemaps.  World coordinates come in  *)
(* sub-steps of a tile (Sub of them per tile); a tile covers half a tile     *)
(* around its centre, points half-way between belong to either.              *)
EXTENDS Tilemap
CONSTANTS Sub

Half == Sub \div 2
Near1(w, t, slack) == Abs(w - Sub * t) <= Half + slack
Nearest(w, t, slack) == Near1(w[1], t[1], slack) /\ Near1(w[2], t[2], slack)
\* all nearest tiles of a position
Ties1(w, slack) == {t \in {(w - Half - slack) \div Sub, (w - Half - slack) \div Sub + 1, (w + Half + slack) \div Sub} : Near1(w, t, slack)}
TilesAt(w, slack) == {<<x, y>> : x \in Ties1(w[1], slack), y \in Ties1(w[2], slack)}

MayTile(w, t) == Nearest(w, t, 0)
MayWorld(t, w, whole, back) == whole /\ w = t /\ back = t
MaySplit(t, c, loc, only) ==
  /\ c = ChunkOf(t) /\ loc = LocalOf(t) /\ only = c
  /\ \A k \in 1..2 : loc[k] \in 0..(Side - 1) /\ c[k] * Side + loc[k] = t[k]
MayQuantize(w, h, min, max, lo, hi) ==
  /\ min = lo /\ max = hi
  /\ \A k \in 1..2 : Near1(w[k] - h[k], min[k], 0) /\ Near1(w[k] + h[k], max[k], 0)

\* a point at w relative to map i
MayHit(i, w, b, slack) == \E p \in TilesAt(w, slack) : b = (TileAt(maps[i].tiles, p) # 0)
=============================================================================
