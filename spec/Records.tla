------------------------------- MODULE Records -------------------------------
(* Recorded sessions of the real library: one JSON object per line, field e  *)
(* names the event, a session starts at a "begin" event.  The file is cut at *)
(* session starts into pieces which are explored in parallel.                *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
N == Len(Trace)
Pieces == 32
Begins == SelectSeq([i \in 1..N |-> i], LAMBDA i : Trace[i].e = "begin")
NBegins == Len(Begins)
PieceStart(k) == Begins[((k - 1) * NBegins) \div Pieces + 1]
PieceStop(k) == IF k = Pieces THEN N + 1 ELSE PieceStart(k + 1)

VARIABLES l,       \* next record
          stop     \* first record after the piece

PieceInit == \E k \in 1..Pieces : l = PieceStart(k) /\ stop = PieceStop(k)

\* the first session start after record i, or the end of the piece
RECURSIVE Search(_, _, _)
Search(i, lo, hi) == \* smallest k in lo..hi+1 with Begins[k] > i, the later ones known to be
  IF lo > hi THEN lo
  ELSE LET mid == (lo + hi) \div 2
       IN IF Begins[mid] > i THEN Search(i, lo, mid - 1) ELSE Search(i, mid + 1, hi)
NextBegin(i, end) == LET k == Search(i, 1, NBegins)
                     IN IF k > NBegins \/ Begins[k] > end THEN end ELSE Begins[k]

Here == Trace[l]
\* consume a record / report a record that is not a step of the specification
Consume == l' = l + 1 /\ stop' = stop
ReportAt(note) == /\ PrintT(<<"REJECT", l, note>>)
                  /\ l' = NextBegin(l, stop)
                  /\ stop' = stop
=============================================================================
