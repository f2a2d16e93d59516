------------------------------- MODULE MC_Rect2 -------------------------------
EXTENDS Rect2
CONSTANTS K
MCNext == \/ \E a, b, c, d \in -K..K : Take([lo |-> <<a, b>>, hi |-> <<c, d>>])
          \/ \E f, g \in BOOLEAN : Start(<<f, g>>)
          \/ \E x, y \in -K..K : Hand(<<x, y>>)
MCSpec == RectInit /\ [][MCNext]_rvars
=============================================================================
