------------------------------- MODULE MC_Calls -------------------------------
(* With a bound on the probes, every question of every caller is answered.   *)
EXTENDS Calls
CONSTANTS Callers, Questions, Answers
MCNext == \/ \E w \in Callers :
               \/ \E q \in Questions : Ask(w, q)
               \/ Probe(w, 1)
               \/ \E a \in Answers, f, c \in BOOLEAN : Return(w, a, f, c)
          \/ Write(0)
          \/ Replace
\* a library that keeps working on a question until it answers it
Work(w) == Probe(w, 1) \/ \E a \in Answers : Return(w, a, TRUE, FALSE)
MCSpec == CallsInit /\ [][MCNext]_cvars /\ \A w \in Callers : WF_cvars(Work(w))
Answered == \A w \in Callers : Busy(w) ~> ~Busy(w)
\* nobody waits for another: an answer can always be given to each
Unhindered == \A w \in Callers : Busy(w) => ENABLED \E a \in Answers : Return(w, a, TRUE, FALSE)
=============================================================================
