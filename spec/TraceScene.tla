------------------------------ MODULE TraceScene ------------------------------
(* Checks recorded sessions of the real library against Scene.  The record   *)
(* file is split at session starts into independent pieces, explored in      *)
(* parallel; every record must be a step of Scene.  A record that is not is  *)
(* reported and the walk resumes at the next session.                        *)
EXTENDS Scene, Records

allvars == <<vars, l, stop>>

\* the aspects of the answers that a property constrains
JudgeOf ==
  CASE Prop = "C01" -> {"verdict"}
    [] Prop = "C02" -> {"in"}
    [] Prop = "C03" -> {"out"}
    [] Prop = "C04" -> {"sdf"}
    [] Prop = "C06" -> {"life"}
    [] OTHER -> AllAspects

TraceInit == SceneInit /\ PieceInit

Tr(t) == [c |-> t[1], s |-> t[2], k |-> t[3], x |-> t[4], y |-> t[5]]
Dir(e) == IF e.sw THEN -1 ELSE 1

\* the guard of the action a record stands for
Allowed(e) ==
  CASE e.e = "collides" -> MayCollide(focus.F, e.b)
    [] e.e = "penetrates" -> MayPenetrate(focus.F, e.some, e.n, e.m, Dir(e), e.inv)
    [] e.e = "distance" -> MayDistance(focus.F, e.some, e.n, e.m, Dir(e), e.inv)
    [] e.e = "sdfv" -> MaySdfv(focus.F, e.b, e.n, e.m, Dir(e), e.inv)
    [] e.e = "sdf" -> MaySdf(focus.F, e.x, e.inv)
    [] e.e = "bad" -> MayFail(focus.F, e.b, e.why)
    [] e.e = "focus" -> DueFor(e.i, e.j) # {} => DueMet(PairFacts(e.i, e.j), e.i, e.j)
    [] OTHER -> TRUE

Forget == bodies' = <<>> /\ focus' = NoFocus /\ said' = {} /\ due' = NoDue

Step(e) ==
  CASE e.e = "begin" -> Forget
    [] e.e = "body" -> SetBody(e.i, e.p, e.r, Tr(e.T))
    [] e.e = "move" -> MoveBody(e.i, Tr(e.T))
    [] e.e = "focus" -> FocusOn(e.i, e.j)
    [] e.e = "collides" -> AnswerCollides(e.b)
    [] e.e = "penetrates" -> AnswerPenetrates(e.some, e.n, e.m, Dir(e), e.inv)
    [] e.e = "distance" -> AnswerDistance(e.some, e.n, e.m, Dir(e), e.inv)
    [] e.e = "sdfv" -> AnswerSdfv(e.b, e.n, e.m, Dir(e), e.inv)
    [] e.e = "sdf" -> AnswerSdf(e.x, e.inv)
    [] e.e = "bad" -> NoAnswer(e.b, e.why)
    [] e.e = "push" -> Push(e.n, e.m, Tr(e.T), e.inv)

TraceNext ==
  /\ l < stop
  /\ IF Allowed(Here) THEN Step(Here) /\ Consume
     ELSE Forget /\ ReportAt(<<Here.e, IF focus.on THEN focus.F.sd ELSE 0>>)

TraceSpec == TraceInit /\ [][TraceNext]_allvars
TraceView == l
=============================================================================
