----------------------------- MODULE MC_Placements ----------------------------
(* Every placement of every pair of a catalogue of shapes on a lattice: the  *)
(* second body at each spot, turned (in steps of 15 degrees) and scaled (in  *)
(* halves) in each of the given ways, relative to the first.  Each is one    *)
(* behaviour of Scene, replayed into the library; many are exact contacts.   *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Kinds, Turns, Scales, Reach
VARIABLE hist
MCInit == hist = <<>>
MCNext == hist = <<>> /\ \E a, b \in 1..Kinds, t \in Turns, s \in Scales, x, y \in -Reach..Reach :
            ~(a = 1 /\ b = 1) /\ hist' = << <<"body", 1, a, 0, 0, 0, 2>>, <<"body", 2, b, x, y, t, s>>, <<"rel", 1, 2>> >>
MCSpec == MCInit /\ [][MCNext]_hist
Show == hist # <<>> => PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================
