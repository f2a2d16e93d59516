----------------------------- MODULE TraceShapes -----------------------------
EXTENDS Shapes, Records
allvars == <<svars, l, stop>>
TraceInit == ShapesInit /\ PieceInit
Tr(t) == [c |-> t[1], s |-> t[2], k |-> t[3], x |-> t[4], y |-> t[5]]
Allowed(e) ==
  CASE e.e = "support" -> MaySupport(e.n, e.p)
    [] e.e = "bound" -> MayBound(e.h)
    [] e.e = "cover" -> MayCover(e.p, e.h)
    [] e.e = "regular" -> MayRegular(e.n, e.up, e.pts)
    [] e.e = "keep" -> MayKeep(e.given, e.kept)
    [] e.e = "strict" -> MayStrict(e.p, e.ok)
    [] e.e = "bad" -> FALSE
    [] OTHER -> TRUE
Step(e) ==
  CASE e.e = "begin" -> shape' = NoShape /\ half' = <<0, 0>>
    [] e.e = "shape" -> TakeShape(e.p, e.r, Tr(e.T))
    [] e.e = "support" -> Support(e.n, e.p)
    [] e.e = "bound" -> Bound(e.h)
    [] e.e = "box" -> StartBox(e.h)
    [] e.e = "cover" -> CoverPoint(e.p, e.h)
    [] e.e \in {"regular", "keep", "strict"} -> UNCHANGED svars
TraceNext ==
  /\ l < stop
  /\ IF Allowed(Here) THEN Step(Here) /\ Consume
     ELSE shape' = NoShape /\ half' = <<0, 0>> /\ ReportAt(<<Here.e>>)
TraceSpec == TraceInit /\ [][TraceNext]_allvars
TraceView == l
=============================================================================
