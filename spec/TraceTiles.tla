------------------------------ MODULE TraceTiles ------------------------------
EXTENDS Tiles, Records
allvars == <<tmvars, l, stop>>
TraceInit == TilemapInit /\ PieceInit
Allowed(e) ==
  CASE e.e = "tile" -> MayTile(e.w, e.t)
    [] e.e = "world" -> MayWorld(e.t, e.w, e.whole, e.back)
    [] e.e = "split" -> MaySplit(e.t, e.c, e.l, e.only)
    [] e.e = "quantize" -> MayQuantize(e.w, e.h, e.min, e.max, e.lo, e.hi)
    [] e.e = "hit" -> MayHit(1, e.w, e.collides, e.slack) /\ MayHit(1, e.w, e.penetrates, e.slack)
    [] e.e = "bad" -> FALSE
    [] OTHER -> TRUE
Step(e) ==
  CASE e.e = "begin" -> maps' = (1 :> NewMap(Empty)) /\ disk' = <<>>
    [] e.e = "set" -> SetTile(e.i, e.p, e.v)
    [] e.e = "remove" -> RemoveTile(e.i, e.p)
    [] OTHER -> UNCHANGED tmvars
TraceNext ==
  /\ l < stop
  /\ IF Allowed(Here) THEN Step(Here) /\ Consume
     ELSE maps' = (1 :> NewMap(Empty)) /\ disk' = <<>> /\ ReportAt(<<Here.e>>)
TraceSpec == TraceInit /\ [][TraceNext]_allvars
TraceView == l
=============================================================================
