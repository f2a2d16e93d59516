----------------------------- MODULE TraceResolve -----------------------------
EXTENDS Resolve, Records
allvars == <<resvars, l, stop>>
TraceInit == ResolveInit /\ PieceInit
Allowed(e) ==
  CASE e.e = "resolve" -> MayEndAt(solid, [ball |-> e.ball, h |-> e.h], e.w, e.left, e.down, e.to, e.same)
    [] e.e = "bad" -> FALSE
    [] OTHER -> TRUE
Step(e) == CASE e.e = "begin" -> TakeMap({})
             [] e.e = "map" -> TakeMap(ToSet(e.solid))
             [] OTHER -> UNCHANGED resvars
TraceNext == /\ l < stop
             /\ IF Allowed(Here) THEN Step(Here) /\ Consume ELSE TakeMap({}) /\ ReportAt(<<Here.e>>)
TraceSpec == TraceInit /\ [][TraceNext]_allvars
TraceView == l
=============================================================================
