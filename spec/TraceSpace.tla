----------------------------- MODULE TraceSpace -----------------------------
(* Checks recorded sessions of the real 3D transforms, shapes and queries.    *)
EXTENDS Space, Records

allvars == <<spvars, l, stop>>
TraceInit == SpaceInit /\ PieceInit

T(o) == [m |-> SubSeq(o, 1, 9), p |-> SubSeq(o, 10, 12)]

Allowed(e) ==
  CASE e.e = "new" -> MayBuild(e.R, e.k, e.p, T(e.o))
    [] e.e = "repeat" -> MayRepeat(e.R, e.k, e.p, T(e.o))
    [] e.e = "default" -> MayDefault(T(e.o))
    [] e.e = "compose" -> MayCompose(regs[e.i], regs[e.j], T(e.o))
    [] e.e = "inverse" -> MayInvert(regs[e.i], T(e.o))
    [] e.e = "delta" -> MayDelta(regs[e.i], regs[e.j], T(e.o))
    [] e.e = "apply" -> MayApply(regs[e.i], e.p, e.q)
    [] e.e = "unapply" -> MayUnapply(regs[e.i], e.p, e.q)
    [] e.e = "return" -> MayReturn(e.p, e.q)
    [] e.e = "meet" -> MayMeet(solid, e.q, e.yes)
    [] e.e = "measure" -> MayMeasure(solid, e.q, e.d)
    [] e.e = "free" -> MayFree(solid, e.q, e.some, e.v, e.first)
    [] e.e = "vector" -> Onto(solid, e.q, e.v, e.first)
    [] e.e = "support" -> MaySupport3(solid, e.n, e.p)
    [] e.e = "cover" -> MayGrow(e.p, e.h)
    [] e.e = "bad" -> FALSE
    [] OTHER -> TRUE

Step(e) ==
  CASE e.e = "begin" -> regs' = <<>> /\ solid' = NoSolid /\ half' = Zero3
    [] e.e = "new" -> New(e.r, e.R, e.k, e.p, T(e.o))
    [] e.e = "repeat" -> Repeat(e.r, e.R, e.k, e.p, T(e.o))
    [] e.e = "default" -> Default(e.r, T(e.o))
    [] e.e = "compose" -> Compose(e.r, e.i, e.j, T(e.o))
    [] e.e = "inverse" -> Invert(e.r, e.i, T(e.o))
    [] e.e = "delta" -> Delta(e.r, e.i, e.j, T(e.o))
    [] e.e = "apply" -> Apply(e.i, e.p, e.q)
    [] e.e = "unapply" -> Unapply(e.i, e.p, e.q)
    [] e.e = "return" -> Return(e.p, e.q)
    [] e.e = "solid" -> TakeSolid(e.h, e.r, e.m, e.k, e.p)
    [] e.e = "meet" -> Meet(e.q, e.yes)
    [] e.e = "measure" -> Measure(e.q, e.d)
    [] e.e = "free" -> Free(e.q, e.some, e.v, e.first)
    [] e.e = "vector" -> Vector(e.q, e.v, e.first)
    [] e.e = "support" -> Support3(e.n, e.p)
    [] e.e = "box" -> StartBox(e.h)
    [] e.e = "cover" -> Grow(e.p, e.h)

TraceNext ==
  /\ l < stop
  /\ IF Allowed(Here) THEN Step(Here) /\ Consume
     ELSE regs' = <<>> /\ solid' = NoSolid /\ half' = Zero3 /\ ReportAt(<<Here.e>>)

TraceSpec == TraceInit /\ [][TraceNext]_allvars
TraceView == l
=============================================================================
