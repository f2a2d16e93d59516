------------------------------ MODULE TraceRect2 ------------------------------
EXTENDS Rect2, Records
allvars == <<rvars, l, stop>>
TraceInit == RectInit /\ PieceInit
Allowed(e) ==
  CASE e.e = "corners" -> e.min = rect.lo /\ e.max = rect.hi
    [] e.e = "cells" -> MayCells(rect, <<e.fx, e.fy>>, e.cells)
    [] e.e = "pad" -> MayPad(rect, e.by, e.min, e.max)
    [] e.e = "bad" -> FALSE
    [] OTHER -> TRUE
Step(e) == CASE e.e = "rect" -> Take([lo |-> e.min, hi |-> e.max])
             [] e.e = "begin" -> Take(NoRect)
             [] OTHER -> Use
TraceNext == /\ l < stop
             /\ IF Allowed(Here) THEN Step(Here) /\ Consume ELSE Take(NoRect) /\ ReportAt(<<Here.e>>)
TraceSpec == TraceInit /\ [][TraceNext]_allvars
TraceView == l
=============================================================================
