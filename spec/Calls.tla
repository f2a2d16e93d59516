-------------------------------- MODULE Calls --------------------------------
(* The life of queries: somebody asks one, it looks at support points a      *)
(* bounded number of times, and returns.  Several callers (threads) may be   *)
(* asking at once.  While nothing moves, the same question has the same      *)
(* answer, whoever asks and whatever else is being asked; outside exact      *)
(* contact every returned number is finite; nothing is written to standard   *)
(* output.                                                                   *)
(*   asked   caller -> question being answered                               *)
(*   probes  caller -> support points evaluated for it                       *)
(*   told    question -> answer given (since the pair was placed)            *)
(*   written bytes written to standard output                                *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS ProbeLimit
VARIABLES asked, probes, told, written
cvars == <<asked, probes, told, written>>

CallsInit == asked = <<>> /\ probes = <<>> /\ told = <<>> /\ written = 0
Less(f, w) == [x \in DOMAIN f \ {w} |-> f[x]]
Busy(w) == w \in DOMAIN asked

MayAsk(w, q) == ~Busy(w) /\ q # ""
MayProbe(w, n) == Busy(w) /\ probes[w] + n < ProbeLimit
MayReturn(w, ans, finite, contact) ==
  /\ Busy(w)
  /\ finite \/ contact
  /\ asked[w] \in DOMAIN told => told[asked[w]] = ans
MayWrite(n) == n = 0

Ask(w, q) == /\ MayAsk(w, q)
             /\ asked' = (w :> q) @@ asked
             /\ probes' = (w :> 0) @@ probes
             /\ UNCHANGED <<told, written>>
Probe(w, n) == /\ MayProbe(w, n)
               /\ probes' = [probes EXCEPT ![w] = @ + n]
               /\ UNCHANGED <<asked, told, written>>
Return(w, ans, finite, contact) ==
  /\ MayReturn(w, ans, finite, contact)
  /\ told' = (asked[w] :> ans) @@ told
  /\ asked' = Less(asked, w) /\ probes' = Less(probes, w)
  /\ UNCHANGED written
Write(n) == MayWrite(n) /\ written' = written + n /\ UNCHANGED <<asked, probes, told>>
\* questions about other placements, or other bodies, in between: nothing told so far changes
Others(n) == UNCHANGED cvars
\* the pair is placed anew: earlier answers no longer bind
Replace == asked = <<>> /\ told' = <<>> /\ UNCHANGED <<asked, probes, written>>

Bounded == \A w \in DOMAIN probes : probes[w] < ProbeLimit
Tidy == DOMAIN probes = DOMAIN asked
Silent == written = 0
\* an answer is never taken back
Steadfast == [][\A q \in DOMAIN told : told' = <<>> \/ (q \in DOMAIN told' /\ told'[q] = told[q])]_cvars
=============================================================================
