-------------------------------- MODULE Rect2 --------------------------------
(* Integer rectangles (both corners included) as machines that hand out      *)
(* their cells one by one, in one of four orders.                            *)
(*   rect  [lo, hi]      flips  <<x backwards, y backwards>>                 *)
(*   out   the cells handed out so far                                       *)
EXTENDS Ints, SequencesExt
VARIABLES rect, flips, out
rvars == <<rect, flips, out>>

NoRect == [lo |-> <<0, 0>>, hi |-> <<-1, -1>>]
RectInit == rect = NoRect /\ flips = <<FALSE, FALSE>> /\ out = <<>>

IsEmpty(r) == r.hi[1] < r.lo[1] \/ r.hi[2] < r.lo[2]
Within(r, c) == \A k \in 1..2 : r.lo[k] <= c[k] /\ c[k] <= r.hi[k]
FirstCell(r, f) == <<IF f[1] THEN r.hi[1] ELSE r.lo[1], IF f[2] THEN r.hi[2] ELSE r.lo[2]>>
LastCell(r, f) == FirstCell(r, <<~f[1], ~f[2]>>)
\* the cell after c: along the row, then the next row
NextCell(r, f, c) ==
  IF c[1] # LastCell(r, f)[1] THEN <<IF f[1] THEN c[1] - 1 ELSE c[1] + 1, c[2]>>
  ELSE <<FirstCell(r, f)[1], IF f[2] THEN c[2] - 1 ELSE c[2] + 1>>
Done(r, f, o) == IF o = <<>> THEN IsEmpty(r) ELSE o[Len(o)] = LastCell(r, f)

Take(r) == rect' = r /\ flips' = <<FALSE, FALSE>> /\ out' = <<>>
Start(f) == flips' = f /\ out' = <<>> /\ UNCHANGED rect
Hand(c) == /\ ~Done(rect, flips, out)
           /\ c = IF out = <<>> THEN FirstCell(rect, flips) ELSE NextCell(rect, flips, out[Len(out)])
           /\ out' = Append(out, c)
           /\ UNCHANGED <<rect, flips>>

\* a whole run at once
MayCells(r, f, cells) ==
  /\ (cells = <<>>) = IsEmpty(r)
  /\ cells # <<>> => /\ cells[1] = FirstCell(r, f)
                     /\ cells[Len(cells)] = LastCell(r, f)
                     /\ \A i \in 1..(Len(cells) - 1) : cells[i] # LastCell(r, f) /\ cells[i + 1] = NextCell(r, f, cells[i])
MayPad(r, by, lo, hi) == \A k \in 1..2 : lo[k] = r.lo[k] - by[k] /\ hi[k] = r.hi[k] + by[k]
Use == UNCHANGED rvars

\* every cell once, in order; complete runs cover the rectangle
Before(f, c, d) == IF c[2] # d[2] THEN (c[2] < d[2]) # f[2] ELSE (c[1] < d[1]) # f[1]
Ordered == \A i \in 1..(Len(out) - 1) : Before(flips, out[i], out[i + 1])
Inside == \A i \in 1..Len(out) : Within(rect, out[i])
Complete == Done(rect, flips, out) => Len(out) = Max2(0, rect.hi[1] - rect.lo[1] + 1) * Max2(0, rect.hi[2] - rect.lo[2] + 1)
WholeRuns == Done(rect, flips, out) <=> MayCells(rect, flips, out)
=============================================================================
