------------------------------- MODULE MC_Interp ------------------------------
(* Interpolation on a few numbers: it starts at one end and finishes at the   *)
(* other, is even, keeps its order, and the same from the other end.          *)
EXTENDS Interp
CONSTANTS N, K
VARIABLE c
MCInit == c = [on |-> FALSE, k |-> 0]
MCNext == \/ ~c.on /\ c.k = 0 /\ \E k \in -K..2*K : k # 0 /\ c' = [c EXCEPT !.k = k]
          \/ ~c.on /\ \E a \in -N..N, b \in -N..N : c' = [on |-> TRUE, k |-> c.k, a |-> a, b |-> b]
MCSpec == MCInit /\ [][MCNext]_c
At(k) == Between(c.a, c.b, k, K)
Ends == c.on => At(0) = Fine * c.a /\ At(K) = Fine * c.b
Inside == (c.on /\ c.k \in 0..K) => At(c.k) \in (Fine * Min2(c.a, c.b))..(Fine * Max2(c.a, c.b))
\* steps of equal size, up to rounding
Even == c.on => Abs((At(c.k + 1) - At(c.k)) - (At(c.k) - At(c.k - 1))) <= 2
OtherEnd == c.on => Abs(Between(c.b, c.a, K - c.k, K) - At(c.k)) <= 1
\* something is allowed, and nothing a whole unit away
Sharp == c.on => MayLerp(c.a, c.b, c.k, K, At(c.k)) /\ ~MayLerp(c.a, c.b, c.k, K, At(c.k) + Fine) /\ ~MayLerp(c.a, c.b, c.k, K, At(c.k) - Fine)
=============================================================================
