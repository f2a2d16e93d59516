-------------------------------- MODULE Rotors --------------------------------
(* Rotors as what they mean: an angle modulo a full turn (Turn steps).       *)
EXTENDS Ints

CONSTANTS FullTurn, Slack

VARIABLE rot          \* register -> angle in 0..FullTurn-1

Norm(t) == t % FullTurn
\* distance of two angles on the circle
Apart(t, u) == LET d == Norm(t - u) IN Min2(d, FullTurn - d)
Same(t, u) == Apart(t, u) <= Slack

RotInit == rot = <<>>
PutR(r, t) == [k \in DOMAIN rot \cup {r} |-> IF k = r THEN Norm(t) ELSE rot[k]]

MakeIdentity(r) == rot' = PutR(r, 0)
FromAngle(r, t) == rot' = PutR(r, t)
\* any length, any tilt: only the turn about Z counts
FromQuaternion(r, t) == rot' = PutR(r, t)
Multiply(r, i, j) == {i, j} \subseteq DOMAIN rot /\ rot' = PutR(r, rot[i] + rot[j])
Inverse(r, i) == i \in DOMAIN rot /\ rot' = PutR(r, -rot[i])

\* observations
MayRead(r, t) == Same(rot[r], t)
\* a vector pointing at angle a is turned to point at angle b, keeping its
\* length (in millionths of the old length)
MayTurnVector(r, a, b, ppm) == Same(a + rot[r], b) /\ Abs(ppm - 1000000) <= 100
ReadAngle(r, t) == r \in DOMAIN rot /\ MayRead(r, t) /\ UNCHANGED rot
TurnVector(r, a, b, ppm) == r \in DOMAIN rot /\ MayTurnVector(r, a, b, ppm) /\ UNCHANGED rot

TypeOK == \A r \in DOMAIN rot : rot[r] \in 0..(FullTurn - 1)
=============================================================================
