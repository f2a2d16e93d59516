----------------------------- MODULE TraceEvidence -----------------------------
(* Queries on user-defined shapes: every answer is a step of Scene, and is   *)
(* justified by the support points asked for.                                *)
EXTENDS Scene, Evidence, Records
allvars == <<vars, seen, l, stop>>
TraceInit == SceneInit /\ EvInit /\ PieceInit
Tr(t) == [c |-> t[1], s |-> t[2], k |-> t[3], x |-> t[4], y |-> t[5]]

Dir2(n) == IF n = <<0, 0>> THEN n ELSE Turn(bodies[2].T, n)
\* the probe of body 2 was in the direction opposite to that of body 1
Opposite(e) == LET u == Dir2(e.m) IN Abs(u[1] + e.n[1]) <= 64 /\ Abs(u[2] + e.n[2]) <= 64
ProbeN(e) == IF Opposite(e) THEN e.n ELSE <<0, 0>>
ProbeD(e) == Sub(e.a, PlacePoint(bodies[2].T, e.b))

Clear == Where(focus.F) # "touch"
MayVerdict(b) == Clear => (IF b THEN OverlapJustified ELSE ApartJustified)
MayVector(b, m, inv) == Clear => IF b THEN OverlapJustified /\ DepthJustified(m, inv)
                                      ELSE ApartJustified /\ GapJustified(m, inv)
Allowed(e) ==
  CASE e.e = "collides" -> MayCollide(focus.F, e.b) /\ MayVerdict(e.b)
    [] e.e = "penetrates" -> /\ MayPenetrate(focus.F, e.some, e.n, e.m, 1, e.inv)
                             /\ IF e.some THEN MayVector(TRUE, e.m, e.inv) ELSE MayVerdict(FALSE)
    [] e.e = "distance" -> /\ MayDistance(focus.F, e.some, e.n, e.m, 1, e.inv)
                           /\ IF e.some THEN MayVector(FALSE, e.m, e.inv) ELSE MayVerdict(TRUE)
    [] e.e = "sdfv" -> MaySdfv(focus.F, e.b, e.n, e.m, 1, e.inv) /\ MayVector(e.b, e.m, e.inv)
    [] e.e = "bad" -> MayFail(focus.F, e.b, e.why)
    [] OTHER -> TRUE
Forget == bodies' = <<>> /\ focus' = NoFocus /\ said' = {} /\ due' = NoDue
Step(e) ==
  CASE e.e = "begin" -> Forget /\ seen' = {}
    [] e.e = "body" -> SetBody(e.i, e.p, e.r, Tr(e.T)) /\ UNCHANGED seen
    [] e.e = "focus" -> FocusOn(e.i, e.j) /\ UNCHANGED seen
    [] e.e = "probe" -> Probed(ProbeN(e), ProbeD(e)) /\ UNCHANGED vars
    [] e.e = "collides" -> AnswerCollides(e.b) /\ seen' = {}
    [] e.e = "penetrates" -> AnswerPenetrates(e.some, e.n, e.m, 1, e.inv) /\ seen' = {}
    [] e.e = "distance" -> AnswerDistance(e.some, e.n, e.m, 1, e.inv) /\ seen' = {}
    [] e.e = "sdfv" -> AnswerSdfv(e.b, e.n, e.m, 1, e.inv) /\ seen' = {}
    [] e.e = "bad" -> NoAnswer(e.b, e.why) /\ seen' = {}
TraceNext ==
  /\ l < stop
  /\ IF Allowed(Here) THEN Step(Here) /\ Consume
     ELSE Forget /\ seen' = {} /\ ReportAt(<<Here.e, focus.F.sd, Cardinality(seen)>>)
TraceSpec == TraceInit /\ [][TraceNext]_allvars
TraceView == l
=============================================================================
