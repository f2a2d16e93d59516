------------------------------ MODULE MC_Tilemap ------------------------------
(* Tilemap explored exhaustively on a few tiles in several chunks, and as a   *)
(* generator of histories for the driver (chunks are 2x2 here; the driver     *)
(* stretches them to the real size).                                          *)
EXTENDS Tilemap, Json
CONSTANTS MaxLedger,   \* bound on the ledgers (0: no bound)
          MaxOps,      \* bound on histories (0: histories are not kept)
          Tiles, Vals,
          Files,       \* names of files
          Two          \* saving, loading and copying too
VARIABLE hist
T4 == {<<-1, 0>>, <<0, 0>>, <<0, 1>>, <<2, 0>>}
T2 == {<<-1, 0>>, <<0, 0>>}
T3 == {<<-1, 0>>, <<0, 0>>, <<0, 1>>}
T8 == {<<-1, 0>>, <<-2, -1>>, <<0, 0>>, <<0, 1>>, <<1, 1>>, <<2, 0>>, <<-1, -1>>, <<0, -1>>}
V3 == {0, 1, 2}
V2 == {0, 1}
Log(r) == hist' = IF MaxOps > 0 THEN Append(hist, r) ELSE hist
MCInit == TilemapInit /\ hist = <<>>
MCNext ==
  \/ MaxOps > 0 /\ Len(hist) = MaxOps /\ Log(<<"end", 1, 0, 0, 0>>) /\ UNCHANGED tmvars
  \/ /\ MaxOps > 0 => Len(hist) < MaxOps
     /\ \/ \E i \in DOMAIN maps, p \in Tiles, v \in Vals : SetTile(i, p, v) /\ Log(<<"set", i, p[1], p[2], v>>)
        \/ \E i \in DOMAIN maps, p \in Tiles : RemoveTile(i, p) /\ Log(<<"remove", i, p[1], p[2], 0>>)
        \/ Two /\ \E i \in DOMAIN maps, f \in Files : Save(i, f) /\ Log(<<"save", i, IF f = "a" THEN 0 ELSE 1, 0, 0>>)
        \/ Two /\ \E f \in Files : Load(2, f) /\ Log(<<"load", 2, IF f = "a" THEN 0 ELSE 1, 0, 0>>)
        \/ Two /\ \E f \in Files : f \notin DOMAIN disk /\ Refuse(f) /\ Log(<<"load", 2, IF f = "a" THEN 0 ELSE 1, 0, 0>>)
        \/ Two /\ \E f \in DOMAIN disk : Tear(f) /\ Log(<<"tear", 1, IF f = "a" THEN 0 ELSE 1, 0, 0>>)
        \/ Two /\ MaxOps > 0 /\ \E i \in DOMAIN maps, f \in Files : SaveFails(i, f) /\ Log(<<"full", i, IF f = "a" THEN 0 ELSE 1, 0, 0>>)
        \/ Two /\ \E i \in DOMAIN maps : maps[i].ledger # <<>> /\ Drain(i) /\ Log(<<"drain", i, 0, 0, 0>>)
        \/ Two /\ Copy(1, 2) /\ Log(<<"copy", 1, 2, 0, 0>>)
MCSpec == MCInit /\ [][MCNext]_<<tmvars, hist>>
Bounded == MaxLedger > 0 => \A i \in DOMAIN maps : Len(maps[i].ledger) <= MaxLedger
\* printed when complete
Show == Len(hist) = MaxOps + 1 => PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================
