------------------------------- MODULE MC_Space -------------------------------
(* The specification of space against first principles, on a small lattice   *)
(* where everything is exact (One = 1): the 24 turns of a cube, small boxes   *)
(* and balls, all lattice points around them.                                 *)
EXTENDS Space
CONSTANT What   \* "solids" or "laws"

Unit == {-1, 1}
Perms == {f \in [Ax -> Ax] : \A i, j \in Ax : i # j => f[i] # f[j]}
Even == {f \in Perms : f \in {<<1, 2, 3>>, <<2, 3, 1>>, <<3, 1, 2>>}}
\* proper rotations: signed permutations of determinant one
SRow(j, s) == <<IF j = 1 THEN s ELSE 0, IF j = 2 THEN s ELSE 0, IF j = 3 THEN s ELSE 0>>
Rots == { SRow(x[1][1], x[2][1]) \o SRow(x[1][2], x[2][2]) \o SRow(x[1][3], x[2][3]) :
          x \in {y \in Perms \X [Ax -> Unit] : (y[1] \in Even) = (y[2][1] * y[2][2] * y[2][3] = 1)} }
Spots == {Zero3, <<1, 0, 0>>, <<0, -1, 2>>}
Transforms == {[m |-> m, p |-> p] : m \in Rots, p \in Spots}
SolidTurns == {x \in Rots : x[1] # 0 \/ x[2] = 1}
Solids == {[h |-> h, r |-> r, m |-> m, k |-> k, p |-> p] :
             h \in {<<0, 0, 0>>, <<1, 2, 1>>, <<2, 1, 0>>, <<2, 2, 3>>}, r \in 0..1,
             m \in SolidTurns, k \in 1..2, p \in {Zero3, <<1, -1, 0>>}}
Cube == {<<x, y, z>> : x, y, z \in -5..5}
Small == {<<x, y, z>> : x, y, z \in -2..2}
Probe == {<<0, 0, 0>>, <<1, 2, -1>>, <<4, -3, 2>>, <<-4, 4, 4>>, <<0, 3, -1>>, <<2, 2, 2>>}

Holds(S, b) == LET d == Over(S, b) IN \A i \in Ax : d[i] <= 0
Within(S, b) == LET d == Over(S, b) IN \A i \in Ax : d[i] < 0
Sq(a) == Dot3(a, a)
MinSq(q, Q) == LET V == {Sq(Sub3(q, b)) : b \in Q} IN CHOOSE n \in V : \A m \in V : n <= m

\* (the first step only spreads the solids over the workers)
MCNext == \/ What = "solids" /\ half = Zero3 /\ \E m \in SolidTurns, x \in {<<1, 1, 1>>, <<1, 2, 1>>} : StartBox(<<x[1], x[2], m[1] + 2 * m[2] + 3 * m[3]>>)
          \/ What = "solids" /\ half # Zero3 /\ solid = NoSolid /\ \E S \in Solids : (S.k = half[2] /\ S.m[1] + 2 * S.m[2] + 3 * S.m[3] = half[3]) /\ TakeSolid(S.h, S.r, S.m, S.k, S.p)
          \/ What = "laws" /\ regs = <<>> /\ solid = NoSolid /\ \E T \in Transforms : New(1, T.m, <<1, 1, 1>>, T.p, T)
          \/ DOMAIN regs = {1} /\ \E T \in Transforms : New(2, T.m, <<1, 1, 1>>, T.p, T)
MCSpec == SpaceInit /\ [][MCNext]_spvars

\* the closed form is the distance to the nearest point, or the depth below the nearest surface point
IsDistance ==
  solid # NoSolid =>
    LET S == [solid EXCEPT !.r = 0]
        In == {b \in Cube : Holds(S, b)}
        Out == {b \in Cube : ~Within(S, b)}
    IN \A q \in Probe : LET d == Sd(S, q)
                        IN IF Holds(S, q) THEN (-d) * (-d) = MinSq(q, Out) ELSE d = ISqrt(MinSq(q, In))
Rounding == solid # NoSolid => \A q \in Probe : Sd(solid, q) = Sd([solid EXCEPT !.r = 0], q) - solid.k * solid.r
\* a vector that is accepted ends on the surface, and nothing shorter does
Shortest ==
  (solid # NoSolid /\ solid.r = 0 /\ solid.m = IdM) =>
    \A q \in {<<0, 0, 0>>, <<1, 2, -1>>, <<4, 3, 0>>}, f \in {"solid", "point"} :
      \A v \in {w \in Cube : Onto(solid, q, w, f)} :
        \A w \in Small : Sq(w) < (Len3(v) - 3) * (Len3(v) - 3) /\ Len3(v) > 3 => Sd(solid, Moved(q, w, f)) # 0
\* turns and moves form a group, and the guards accept exactly its elements
Laws ==
  DOMAIN regs = {1, 2} =>
    LET S == regs[1] T == regs[2]
        Inv(X) == [m |-> Col(X.m, 1) \o Col(X.m, 2) \o Col(X.m, 3), p |-> TurnedBack(X.m, Sub3(Zero3, X.p))]
    IN /\ MayCompose(S, T, After(S, T))
       /\ \A v \in Probe : Image(After(S, T), v) = Image(S, Image(T, v))
       /\ \A v \in Probe : TurnedBack(S.m, Turned(S.m, v)) = v
       /\ MayInvert(S, Inv(S))
       /\ (T # Inv(S)) => ~MayInvert(S, T)
       /\ MayDelta(S, T, After(Inv(S), T))
       /\ (S # Id3) => ~MayDelta(S, T, T)
       \* steps about one point add up to a step about this point
       /\ LET k == <<One, One, One>>
              A == About(S.m, k, T.p)
              B == About(T.m, k, T.p)
          IN /\ Image(A, T.p) = T.p
             /\ MayRepeat(MulM(S.m, T.m), k, T.p, After(A, B))
             /\ (B # Id3) => ~MayRepeat(MulM(S.m, T.m), k, T.p, A)
=============================================================================
