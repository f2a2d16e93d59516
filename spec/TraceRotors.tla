----------------------------- MODULE TraceRotors -----------------------------
EXTENDS Rotors, Records
allvars == <<rot, l, stop>>
TraceInit == RotInit /\ PieceInit
Allowed(e) ==
  CASE e.e = "read" -> MayRead(e.r, e.t)
    [] e.e = "turn" -> MayTurnVector(e.r, e.from, e.to, e.ppm)
    [] e.e = "bad" -> FALSE
    [] OTHER -> TRUE
Step(e) ==
  CASE e.e = "begin" -> rot' = <<>>
    [] e.e = "identity" -> MakeIdentity(e.r)
    [] e.e = "angle" -> FromAngle(e.r, e.t)
    [] e.e = "quat" -> FromQuaternion(e.r, e.t)
    [] e.e = "mul" -> Multiply(e.r, e.i, e.j)
    [] e.e = "inv" -> Inverse(e.r, e.i)
    [] e.e = "read" -> ReadAngle(e.r, e.t)
    [] e.e = "turn" -> TurnVector(e.r, e.from, e.to, e.ppm)
TraceNext ==
  /\ l < stop
  /\ IF Allowed(Here) THEN Step(Here) /\ Consume
     ELSE rot' = <<>> /\ ReportAt(<<Here.e, IF Here.e = "bad" THEN 0 ELSE rot[Here.r]>>)
TraceSpec == TraceInit /\ [][TraceNext]_allvars
TraceView == l
=============================================================================
