------------------------------ MODULE MC_Resolve ------------------------------
(* Small maps and movers on a coarse lattice: whatever the candidates say     *)
(* about one tile must leave the mover touching it.                           *)
EXTENDS Resolve
CONSTANTS Maps, Hs
Spots == -96..96
SMaps == {{}, {<<0, 0>>}, {<<0, 0>>, <<1, 0>>}, {<<0, 0>>, <<0, 1>>, <<1, 0>>}}
SHs == {16, 32, 50}
MCNext == \/ at = {} /\ \E s \in Maps : s # solid /\ TakeMap(s)
          \/ at = {} /\ \E b \in BOOLEAN, hx \in Hs, hy \in Hs, x \in Spots, y \in {-64, -33, 0, 5, 40}, u, v \in BOOLEAN :
                /\ (b => hx = hy)
                /\ Enter([ball |-> b, h |-> <<hx, hy>>], <<x, y>>, u, v)
          \/ Visit
MCSpec == ResolveInit /\ [][MCNext]_resvars
=============================================================================
