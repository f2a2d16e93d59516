------------------------------ MODULE MC_Rotors ------------------------------
(* Rotors on a coarse circle: whatever is done to a bank of three registers, *)
(* the angles stay a group, and what may be read is the angle and no other.  *)
EXTENDS Rotors
Bank == 1..3
MCNext ==
  \/ \E r \in Bank : MakeIdentity(r)
  \/ \E r \in Bank, t \in -FullTurn..FullTurn : FromAngle(r, t)
  \/ \E r, i, j \in Bank : Multiply(r, i, j)
  \/ \E r, i \in Bank : Inverse(r, i)
MCSpec == RotInit /\ [][MCNext]_rot
Circle == 0..(FullTurn - 1)
ReadsOne == \A r \in DOMAIN rot : \A t \in -FullTurn..FullTurn : MayRead(r, t) <=> (t - rot[r]) % FullTurn = 0
TurnsRigidly == \A r \in DOMAIN rot : \A a \in Circle :
   /\ MayTurnVector(r, a, (a + rot[r]) % FullTurn, 1000000) /\ ~MayTurnVector(r, a, (a + rot[r] + 1) % FullTurn, 1000000)
   /\ ~MayTurnVector(r, a, (a + rot[r]) % FullTurn, 1001000)
\* circle distance is a metric
Metric == \A s, t, u \in Circle : Apart(s, t) = Apart(t, s) /\ (Apart(s, t) = 0 <=> s = t) /\ Apart(s, u) <= Apart(s, t) + Apart(t, u)
Undone == [][\A r, i, j \in DOMAIN rot : (rot' = PutR(r, rot[i] + rot[j])) => Norm(rot'[r] - rot[j]) = rot[i]]_rot
=============================================================================
