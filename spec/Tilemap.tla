------------------------------- MODULE Tilemap -------------------------------
(* Tilemaps: which tiles hold what, which chunks exist, what the event       *)
(* ledger says about it, and what is on disk.                                *)
(*                                                                           *)
(* State                                                                     *)
(*   maps : id -> [tiles   sparse map position -> non-zero value,            *)
(*                 chunks  set of existing chunk positions,                  *)
(*                 ledger  sequence of <<kind, chunk>>,                      *)
(*                 base    the chunks that existed when the ledger started,  *)
(*                 seen    how many events have been looked at,              *)
(*                 told    [tiles, chunks] when they were]                   *)
(*   disk : file name -> [tiles, chunks], for the files that hold a map      *)
EXTENDS Ints, SequencesExt, FiniteSetsExt, Functions, TLC

CONSTANTS Side        \* tiles per chunk side

VARIABLES maps, disk
tmvars == <<maps, disk>>

None == <<>>          \* the empty function: no tile set
ChunkOf(p) == <<p[1] \div Side, p[2] \div Side>>
LocalOf(p) == <<p[1] % Side, p[2] % Side>>

TileAt(t, p) == IF p \in DOMAIN t THEN t[p] ELSE 0
Write(t, p, v) == IF v = 0 THEN [q \in DOMAIN t \ {p} |-> t[q]] ELSE (p :> v) @@ t
In(t, c) == {p \in DOMAIN t : ChunkOf(p) = c}
ContentOf(t, c) == [p \in In(t, c) |-> t[p]]

\* what has to be announced when the content goes from a to b
ChangesAmong(S, a, b) ==
  LET touched == {c \in S \cap (a.chunks \cup b.chunks) :
                    (c \in a.chunks) # (c \in b.chunks) \/ ContentOf(a.tiles, c) # ContentOf(b.tiles, c)}
      kind(c) == IF c \notin a.chunks THEN "created" ELSE IF c \notin b.chunks THEN "removed" ELSE "changed"
  IN {<<kind(c), c>> : c \in touched}
Changes(a, b) == ChangesAmong(a.chunks \cup b.chunks, a, b)
Announce(a, b) == SetToSeq(Changes(a, b))

Content(m) == [tiles |-> m.tiles, chunks |-> m.chunks]
NewMap(c) == [tiles |-> c.tiles, chunks |-> c.chunks, ledger |-> <<>>, base |-> c.chunks, seen |-> 0, told |-> c]
\* an operation on a tile concerns its chunk only
Become(m, c, k) == [m EXCEPT !.tiles = c.tiles, !.chunks = c.chunks, !.ledger = m.ledger \o SetToSeq(ChangesAmong({k}, Content(m), c))]

Empty == [tiles |-> None, chunks |-> {}]
TilemapInit == maps = (1 :> NewMap(Empty)) /\ disk = <<>>

-----------------------------------------------------------------------------
\* writing any value, zero included, brings the chunk into being
AfterSet(m, p, v) == [tiles |-> Write(m.tiles, p, v), chunks |-> m.chunks \cup {ChunkOf(p)}]
\* removing drops the chunk when nothing but zeros is left
AfterRemove(m, p) ==
  IF ChunkOf(p) \notin m.chunks THEN Content(m)
  ELSE LET t == Write(m.tiles, p, 0)
       IN [tiles |-> t, chunks |-> IF In(t, ChunkOf(p)) = {} THEN m.chunks \ {ChunkOf(p)} ELSE m.chunks]

SetTile(i, p, v) == /\ i \in DOMAIN maps
                    /\ maps' = [maps EXCEPT ![i] = Become(@, AfterSet(@, p, v), ChunkOf(p))]
                    /\ UNCHANGED disk
RemoveTile(i, p) == /\ i \in DOMAIN maps
                    /\ maps' = [maps EXCEPT ![i] = Become(@, AfterRemove(@, p), ChunkOf(p))]
                    /\ UNCHANGED disk
Save(i, f) == /\ i \in DOMAIN maps
              /\ disk' = (f :> Content(maps[i])) @@ disk
              /\ UNCHANGED maps
Load(j, f) == /\ f \in DOMAIN disk
              /\ maps' = (j :> NewMap(disk[f])) @@ maps
              /\ UNCHANGED disk
\* a save of which only a part reached the disk: the file holds no map any more
Tear(f) == /\ disk' = [g \in DOMAIN disk \ {f} |-> disk[g]]
           /\ UNCHANGED maps
\* a save that found the disk full says so, and leaves no map, or the file as it was, or all of
\* this map: never another one
SaveFails(i, f) == i \in DOMAIN maps /\ (Tear(f) \/ UNCHANGED tmvars \/ Save(i, f))
\* and what holds no map is refused, not read as some other map
Refuse(f) == f \notin DOMAIN disk /\ UNCHANGED tmvars
\* through text and back
Copy(i, j) == /\ i \in DOMAIN maps
              /\ maps' = (j :> NewMap(Content(maps[i]))) @@ maps
              /\ UNCHANGED disk
\* the user has read the ledger
Look(i) == /\ i \in DOMAIN maps
           /\ maps' = [maps EXCEPT ![i] = [@ EXCEPT !.seen = Len(maps[i].ledger), !.told = Content(maps[i])]]
           /\ UNCHANGED disk
\* and thrown its pages away
Drain(i) == /\ i \in DOMAIN maps
            /\ maps' = [maps EXCEPT ![i] = NewMap(Content(@))]
            /\ UNCHANGED disk

-----------------------------------------------------------------------------
\* no tile without its chunk, no zero stored
WellFormed == \A i \in DOMAIN maps : \A p \in DOMAIN maps[i].tiles : maps[i].tiles[p] # 0 /\ ChunkOf(p) \in maps[i].chunks

\* the chunks that exist according to the first n events
RECURSIVE StoryUpTo(_, _, _)
StoryUpTo(base, ev, n) ==
  IF n = 0 THEN base
  ELSE LET s == StoryUpTo(base, ev, n - 1)
       IN CASE ev[n][1] = "created" -> s \cup {ev[n][2]}
            [] ev[n][1] = "removed" -> s \ {ev[n][2]}
            [] OTHER -> s
SoundStory(base, ev) ==
  \A n \in 1..Len(ev) : (ev[n][1] = "created") = (ev[n][2] \notin StoryUpTo(base, ev, n - 1))
LedgerTells == \A i \in DOMAIN maps : LET m == maps[i]
                                     IN /\ StoryUpTo(m.base, m.ledger, Len(m.ledger)) = m.chunks
                                        /\ SoundStory(m.base, m.ledger)

\* one operation touches at most one tile of a map that stays
OneTile == [][\A i \in DOMAIN maps \cap DOMAIN maps' :
                 (maps'[i].base = maps[i].base /\ IsPrefix(maps[i].ledger, maps'[i].ledger) /\ maps'[i].ledger # <<>>) =>
                 LET a == maps[i].tiles
                     b == maps'[i].tiles
                 IN Cardinality({p \in DOMAIN a \cup DOMAIN b : TileAt(a, p) # TileAt(b, p)}) <= 1]_tmvars
\* ledgers only grow (a map that is loaded starts a new one), one event per step
LedgerGrows == [][\A i \in DOMAIN maps \cap DOMAIN maps' :
                    \/ maps'[i].ledger = <<>>
                    \/ IsPrefix(maps[i].ledger, maps'[i].ledger) /\ Len(maps'[i].ledger) <= Len(maps[i].ledger) + 1]_tmvars
=============================================================================
