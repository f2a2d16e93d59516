----------------------------- MODULE TraceTilemap -----------------------------
(* Recorded histories of real tilemaps.  After each operation the driver      *)
(* records what the map contains (all chunks, all non-zero tiles).            *)
(*   M01  it must be what Tilemap says                                        *)
(*   M02  whatever it is, the new events must announce exactly the change     *)
(*   M03  whatever it is, copies through text and files must be the same,     *)
(*        and stay so under the same operations                               *)
(* Where the content is not judged it is taken over as observed.              *)
EXTENDS Tilemap, Records
allvars == <<tmvars, l, stop>>
TraceInit == TilemapInit /\ PieceInit

Judged == Prop = "M01"
Fn(ts) == FoldLeft(LAMBDA f, t : (<<t[1], t[2]>> :> t[3]) @@ f, None, ts)
Seen(e) == [tiles |-> Fn(e.tiles), chunks |-> Range(e.chunks)]
NoDup(s) == Cardinality(Range(s)) = Len(s)

\* new events since the last look
Fresh(m) == SubSeq(m.ledger, m.seen + 1, Len(m.ledger))
SameEvents(a, b) == Len(a) = Len(b) /\ Range(a) = Range(b)

Adopted(m, c) == [m EXCEPT !.tiles = c.tiles, !.chunks = c.chunks,
                           !.ledger = SubSeq(m.ledger, 1, m.seen) \o Announce(m.told, c)]
\* the content of one chunk, seen
Outside(t, c) == [p \in {q \in DOMAIN t : ChunkOf(q) # c} |-> t[p]]
AdoptedChunk(m, c, there, t) ==
  LET to == [tiles |-> t @@ Outside(m.tiles, c), chunks |-> IF there THEN m.chunks \cup {c} ELSE m.chunks \ {c}]
  IN [m EXCEPT !.tiles = to.tiles, !.chunks = to.chunks, !.ledger = SubSeq(m.ledger, 1, m.seen) \o SetToSeq(ChangesAmong({c}, m.told, to))]
\* content by the rules / by observation
Allowed(e) ==
  CASE e.e = "content" -> /\ NoDup(e.chunks)
                          /\ (Judged \/ (Prop = "M03" /\ e.still)) => Seen(e) = Content(maps[e.i])
    [] e.e = "peek" -> Judged => /\ e.there = (e.c \in maps[e.i].chunks)
                                 /\ Fn(e.tiles) = ContentOf(maps[e.i].tiles, e.c)
    [] e.e = "get" -> Prop \in {"M02", "M03"} \/ e.v = TileAt(maps[e.i].tiles, e.p)
    [] e.e = "events" -> (Prop \in {"M02", "M03"}) => SameEvents(e.new, Fresh(maps[e.i])) /\ e.len = Len(maps[e.i].ledger)
    [] e.e = "agree" -> Content(maps[e.i]) = Content(maps[e.j])
    [] e.e = "load" -> e.f \in DOMAIN disk
    [] e.e = "refused" -> e.f \notin DOMAIN disk
    [] e.e = "full" -> e.there => Seen(e) \in {Content(maps[e.i])} \cup (IF e.f \in DOMAIN disk THEN {disk[e.f]} ELSE {})
    \* a map of many chunks, written tile by tile, and as it is read back
    [] e.e = "big" -> /\ Range(e.read) = Range(e.wrote) /\ NoDup(e.read)
                      /\ Range(e.chunks) = {ChunkOf(<<t[1], t[2]>>) : t \in Range(e.wrote)}
    [] e.e = "bad" -> FALSE
    [] OTHER -> TRUE

Step(e) ==
  CASE e.e = "begin" -> maps' = (1 :> NewMap(Empty)) /\ disk' = <<>>
    [] e.e = "set" -> SetTile(e.i, e.p, e.v)
    [] e.e = "remove" -> RemoveTile(e.i, e.p)
    [] e.e = "save" -> Save(e.i, e.f)
    [] e.e = "load" -> Load(e.j, e.f)
    [] e.e = "tear" -> Tear(e.f)
    [] e.e = "full" -> /\ SaveFails(e.i, e.f)
                       /\ IF e.there THEN disk' = (e.f :> Seen(e)) @@ disk ELSE e.f \notin DOMAIN disk'
    [] e.e = "refused" -> Refuse(e.f)
    [] e.e = "drain" -> Drain(e.i)
    [] e.e = "copy" -> Copy(e.i, e.j)
    [] e.e = "content" -> /\ maps' = IF Judged THEN maps ELSE [maps EXCEPT ![e.i] = Adopted(maps[e.i], Seen(e))]
                          /\ UNCHANGED disk
    [] e.e = "peek" -> /\ maps' = IF Judged THEN maps ELSE [maps EXCEPT ![e.i] = AdoptedChunk(maps[e.i], e.c, e.there, Fn(e.tiles))]
                       /\ UNCHANGED disk
    [] e.e = "events" -> IF Prop \in {"M02", "M03"} THEN Look(e.i) ELSE UNCHANGED tmvars
    [] OTHER -> UNCHANGED tmvars

TraceNext ==
  /\ l < stop
  /\ IF Allowed(Here) THEN Step(Here) /\ Consume
     ELSE maps' = (1 :> NewMap(Empty)) /\ disk' = <<>> /\ ReportAt(<<Here.e>>)
TraceSpec == TraceInit /\ [][TraceNext]_allvars
TraceView == l
=============================================================================
