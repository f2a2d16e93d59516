------------------------------ MODULE TraceInterp ------------------------------
EXTENDS Interp, Records
TraceInit == PieceInit
Allowed(e) ==
  CASE e.e = "lerp" -> MayLerps(e.a, e.b, e.k, e.inv, e.x)
    [] e.e = "square" -> MaySquare(e.a, e.x)
    [] e.e = "bad" -> FALSE
    [] OTHER -> TRUE
TraceNext == /\ l < stop
             /\ IF Allowed(Here) THEN Consume ELSE ReportAt(<<Here.e>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, stop>>
TraceView == l
=============================================================================
