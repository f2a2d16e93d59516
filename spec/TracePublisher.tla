---------------------------- MODULE TracePublisher ----------------------------
EXTENDS Publisher, Records
allvars == <<pvars, l, stop>>
TraceInit == PubInit /\ PieceInit
Reset == ledger' = <<>> /\ bag' = {} /\ since' = <<>> /\ calls' = <<>>
SameSet(s, t) == Len(s) = Cardinality(t) /\ {s[i] : i \in 1..Len(s)} = t
\* what is seen after the operation: new calls, sizes, and in short histories
\* (and now and then in long ones) the whole ledger and the whole set
Holds(e, led, set) ==
  /\ e.len = Len(led) /\ e.size = Cardinality(set)
  /\ "ledger" \in DOMAIN e => e.ledger = led /\ SameSet(e.set, set)
Allowed(e) ==
  CASE e.e = "attach" -> e.calls = <<>> /\ Holds(e, ledger, bag)
    [] e.e = "notify" -> e.calls = Deliveries(Len(since), e.ev) /\ Holds(e, Append(ledger, e.ev), bag \cup {e.ev})
    [] e.e = "burst" -> e.calls = RunDeliveries(Len(since), e.ev, e.n)
                        /\ Holds(e, ledger \o Run(e.ev, e.n), bag \cup (e.ev..(e.ev + e.n - 1)))
    [] e.e = "bad" -> FALSE
    [] OTHER -> TRUE
Step(e) == CASE e.e = "begin" -> Reset
             [] e.e = "attach" -> Attach
             [] e.e = "notify" -> Notify(e.ev)
             [] e.e = "burst" -> Burst(e.ev, e.n)
             [] OTHER -> UNCHANGED pvars
TraceNext == /\ l < stop
             /\ IF Allowed(Here) THEN Step(Here) /\ Consume ELSE Reset /\ ReportAt(<<Here.e>>)
TraceSpec == TraceInit /\ [][TraceNext]_allvars
TraceView == l
=============================================================================
