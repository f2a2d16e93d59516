---------------------------- MODULE TraceTransforms ----------------------------
(* Checks recorded register sessions of the real transforms.                  *)
EXTENDS Transforms, Records

allvars == <<regs, l, stop>>
TraceInit == TransInit /\ PieceInit

T(o) == [a |-> o[1], b |-> o[2], c |-> o[3], d |-> o[4], x |-> o[5], y |-> o[6], rc |-> o[7], rs |-> o[8]]

Allowed(e) ==
  CASE e.e = "new" -> MayBuild(e.c, e.s, e.kx, e.ky, e.x, e.y, T(e.o))
    [] e.e = "repeat" -> MayRepeat(e.c, e.s, e.kx, e.ky, e.x, e.y, T(e.o))
    [] e.e = "default" -> MayDefault(T(e.o))
    [] e.e = "compose" -> MayCompose(regs[e.i], regs[e.j], T(e.o))
    [] e.e = "inverse" -> MayInvert(regs[e.i], T(e.o))
    [] e.e = "delta" -> MayDelta(regs[e.i], regs[e.j], T(e.o))
    [] e.e = "apply" -> MayApply(regs[e.i], e.p, e.q)
    [] e.e = "unapply" -> MayUnapply(regs[e.i], e.p, e.q)
    [] e.e = "normal" -> MayTurn(regs[e.i], e.p, e.q)
    [] e.e = "unnormal" -> MayUnturn(regs[e.i], e.p, e.q)
    [] e.e = "return" -> MayReturn(e.p, e.q)
    [] e.e = "bad" -> FALSE
    [] OTHER -> TRUE

Step(e) ==
  CASE e.e = "begin" -> regs' = <<>>
    [] e.e = "new" -> New(e.r, e.c, e.s, e.kx, e.ky, e.x, e.y, T(e.o))
    [] e.e = "repeat" -> Repeat(e.r, e.c, e.s, e.kx, e.ky, e.x, e.y, T(e.o))
    [] e.e = "default" -> Default(e.r, T(e.o))
    [] e.e = "compose" -> Compose(e.r, e.i, e.j, T(e.o))
    [] e.e = "inverse" -> Invert(e.r, e.i, T(e.o))
    [] e.e = "delta" -> Delta(e.r, e.i, e.j, T(e.o))
    [] e.e = "apply" -> Apply(e.i, e.p, e.q)
    [] e.e = "unapply" -> Unapply(e.i, e.p, e.q)
    [] e.e = "normal" -> Turn(e.i, e.p, e.q)
    [] e.e = "unnormal" -> Unturn(e.i, e.p, e.q)
    [] e.e = "return" -> UNCHANGED regs

TraceNext ==
  /\ l < stop
  /\ IF Allowed(Here) THEN Step(Here) /\ Consume
     ELSE regs' = <<>> /\ ReportAt(<<Here.e>>)

TraceSpec == TraceInit /\ [][TraceNext]_allvars
TraceView == l
=============================================================================
