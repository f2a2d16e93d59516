----------------------------- MODULE MC_Publisher -----------------------------
EXTENDS Publisher, Json, TLC
CONSTANTS MaxOps
VARIABLE hist
MCInit == PubInit /\ hist = <<>>
MCNext == \/ Len(hist) = MaxOps /\ hist' = Append(hist, <<"end", 0>>) /\ UNCHANGED pvars
          \/ Len(hist) < MaxOps /\ \/ Attach /\ hist' = Append(hist, <<"attach", 0>>)
                                   \/ \E ev \in 1..2 : Notify(ev) /\ hist' = Append(hist, <<"notify", ev>>)
                                   \/ Burst(1, 2) /\ hist' = Append(hist, <<"burst", 1, 2>>)
MCSpec == MCInit /\ [][MCNext]_<<pvars, hist>>
Show == Len(hist) = MaxOps + 1 => PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================
