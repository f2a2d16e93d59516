------------------------------ MODULE TraceApprox ------------------------------
EXTENDS Approx, Records
TraceInit == PieceInit
Allowed(e) ==
  CASE e.e = "num" -> MayNum(e.a, e.b, e.mul, e.inv, e.t, e.ok)
    [] e.e = "vec" -> MayVec(e.a, e.d, e.R, e.mul, e.inv, e.ok, e.back)
    [] e.e = "odd" -> MayOdd(e.ok)
    [] e.e = "self" -> e.ok
    \* the assertion fails exactly when the comparison does
    [] e.e = "assert" -> e.held = e.ok
    [] e.e = "bad" -> FALSE
    [] OTHER -> TRUE
TraceNext == /\ l < stop
             /\ IF Allowed(Here) THEN Consume ELSE ReportAt(<<Here.e>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, stop>>
TraceView == l
=============================================================================
