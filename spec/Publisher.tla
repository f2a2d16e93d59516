------------------------------ MODULE Publisher ------------------------------
(* The three publishers: a ledger keeps every event, a set ledger keeps the  *)
(* distinct ones, a callback publisher calls its subscribers.                *)
(*   ledger   events notified, in order                                      *)
(*   bag      distinct events notified                                       *)
(*   since    subscriber -> how many events had been sent when it came       *)
(*   calls    deliveries <<subscriber, event>>, in order                     *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES ledger, bag, since, calls
pvars == <<ledger, bag, since, calls>>
PubInit == ledger = <<>> /\ bag = {} /\ since = <<>> /\ calls = <<>>

\* the deliveries one event causes
Deliveries(n, ev) == [k \in 1..n |-> <<k, ev>>]
Attach == since' = Append(since, Len(ledger)) /\ UNCHANGED <<ledger, bag, calls>>
Notify(ev) == /\ ledger' = Append(ledger, ev)
              /\ bag' = bag \cup {ev}
              /\ calls' = calls \o Deliveries(Len(since), ev)
              /\ UNCHANGED since
\* n events in a row, counting up
Run(ev, n) == [i \in 1..n |-> ev + i - 1]
RunDeliveries(subs, ev, n) == IF subs = 0 THEN <<>>
                              ELSE [i \in 1..(n * subs) |-> <<((i - 1) % subs) + 1, ev + (i - 1) \div subs>>]
Burst(ev, n) == /\ ledger' = ledger \o Run(ev, n)
                /\ bag' = bag \cup (ev..(ev + n - 1))
                /\ calls' = calls \o RunDeliveries(Len(since), ev, n)
                /\ UNCHANGED since

\* every subscriber has heard exactly the events sent since it came, in order
Heard(k) == [i \in 1..Len(SelectSeq(calls, LAMBDA c : c[1] = k)) |-> SelectSeq(calls, LAMBDA c : c[1] = k)[i][2]]
AllHeard == \A k \in 1..Len(since) : Heard(k) = SubSeq(ledger, since[k] + 1, Len(ledger))
BagIsRange == bag = {ledger[i] : i \in 1..Len(ledger)}
NothingLost == [][Len(ledger') >= Len(ledger) /\ SubSeq(ledger', 1, Len(ledger)) = ledger
                  /\ SubSeq(calls', 1, Len(calls)) = calls]_pvars
=============================================================================
