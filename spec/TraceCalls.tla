------------------------------ MODULE TraceCalls ------------------------------
(* Recorded queries of the real library against Calls, with the geometry of  *)
(* Scene saying which pairs are in contact.                                  *)
EXTENDS Calls, Scene, Records
allvars == <<cvars, vars, l, stop>>
NoJudge == {}
TraceInit == CallsInit /\ SceneInit /\ PieceInit
Tr(t) == [c |-> t[1], s |-> t[2], k |-> t[3], x |-> t[4], y |-> t[5]]
Contact == Where(focus.F) = "touch"

Allowed(e) ==
  CASE e.e = "ask" -> MayAsk(e.w, e.q)
    [] e.e = "probed" -> MayProbe(e.w, e.n)
    [] e.e = "ret" -> Busy(e.w) /\ asked[e.w] = e.q /\ MayReturn(e.w, e.a, e.finite, e.finite \/ Contact)
    [] e.e = "stdout" -> MayWrite(e.bytes)
    [] e.e = "died" -> FALSE      \* panicked, or exceeded the evaluation limit
    [] OTHER -> TRUE

Reset == asked' = <<>> /\ probes' = <<>> /\ told' = <<>> /\ written' = 0
Forget == bodies' = <<>> /\ focus' = NoFocus /\ said' = {} /\ due' = NoDue
Step(e) ==
  CASE e.e = "begin" -> Forget /\ Reset
    [] e.e = "body" -> SetBody(e.i, e.p, e.r, Tr(e.T)) /\ UNCHANGED cvars
    [] e.e = "focus" -> FocusOn(e.i, e.j) /\ Replace
    [] e.e = "ask" -> Ask(e.w, e.q) /\ UNCHANGED vars
    [] e.e = "probed" -> Probe(e.w, e.n) /\ UNCHANGED vars
    [] e.e = "ret" -> Return(e.w, e.a, e.finite, e.finite \/ Contact) /\ UNCHANGED vars
    [] e.e = "others" -> Others(e.n) /\ UNCHANGED vars
    [] e.e = "stdout" -> Write(e.bytes) /\ UNCHANGED vars
TraceNext ==
  /\ l < stop
  /\ IF Allowed(Here) THEN Step(Here) /\ Consume
     ELSE Forget /\ Reset /\ ReportAt(<<Here.e, IF focus.on THEN focus.F.sd ELSE 0>>)
TraceSpec == TraceInit /\ [][TraceNext]_allvars
TraceView == l
=============================================================================
