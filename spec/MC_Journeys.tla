------------------------------ MODULE MC_Journeys -----------------------------
(* Histories of a few bodies, as orders to be carried out on the library:    *)
(* bodies are moved to a spot, turned, asked about, and pushed by whatever   *)
(* the library answers (how = 0: by the penetration or the distance, 1: by   *)
(* the signed distance vector), in every order up to a length, or at random  *)
(* for longer ones.  What the library then answers is judged by Scene, whose *)
(* Push leaves a promise to be found kept.                                    *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Families, Kinds, Bodies, Reach, Turns, Scales, MaxOps, Among(_)
VARIABLES hist, n
jvars == <<hist, n>>
Spots == -Reach..Reach
MCInit == hist = <<>> /\ n = 0
Log(op) == hist' = Append(hist, op)
\* when walking at random, as many ways to move as to push
All(S) == S
One(S) == {RandomElement(S)}
Begin == hist = <<>> /\ \E f \in Families : Log(<<"family", f>>) /\ n' = 0
Enter == /\ hist # <<>> /\ n < Bodies /\ n' = n + 1
         /\ \E k \in Kinds, p \in (IF n = 0 THEN {<<0, 0>>} ELSE Among(Spots \X Spots)), s \in Scales : Log(<<"body", n + 1, k, p[1], p[2], 0, s>>)
Pairs == {p \in (1..Bodies) \X (1..Bodies) : p[1] # p[2]}
Last == hist[Len(hist)]
Act ==
  /\ n = Bodies /\ Len(hist) < 1 + Bodies + MaxOps /\ UNCHANGED n
  /\ \/ \E p \in Pairs, how \in {0, 1} : Log(<<"push", p[1], p[2], how>>)
     \/ \E p \in Pairs : Last[1] # "ask" /\ Log(<<"ask", p[1], p[2]>>)
     \/ \E i \in Among(2..Bodies), p \in Among(Spots \X Spots) : Last[1] # "move" /\ Log(<<"move", i, p[1], p[2]>>)
     \/ \E i \in Among(2..Bodies), t \in Among(Turns) : Last[1] # "turn" /\ Log(<<"turn", i, t>>)
Done == Len(hist) = 1 + Bodies + MaxOps /\ Last[1] # "end"
End == Done /\ Log(<<"end", 0>>) /\ UNCHANGED n
MCNext == Begin \/ Enter \/ Act \/ End
MCSpec == MCInit /\ [][MCNext]_jvars
Show == (hist # <<>> /\ Last[1] = "end") => PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================
