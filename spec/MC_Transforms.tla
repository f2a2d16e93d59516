---------------------------- MODULE MC_Transforms ----------------------------
(* The laws of plane transforms on a small exact set: quarter turns, scales  *)
(* one half, one and two, a few places (One = 4).                            *)
EXTENDS Transforms
Quarter == { <<One, 0>>, <<0, One>>, <<-One, 0>>, <<0, -One>> }
Sizes == {One \div 2, One, 2 * One}
Places == { <<0, 0>>, <<64, 0>>, <<-32, 128>>, <<16, -48>> }
Members == {Build(q[1], q[2], k, k, p[1], p[2]) : q \in Quarter, k \in Sizes, p \in Places}
\* no turn, scales along the axes
Stretched == {Build(One, 0, k, m, p[1], p[2]) : k \in Sizes, m \in Sizes, p \in Places}
Probe == { <<0, 0>>, <<64, 0>>, <<0, 32>>, <<-16, 80>>, <<128, -64>> }
\* the inverse, computed from its definition
Inv(T) == LET k == Max2(Abs(T.a), Abs(T.c))   \* the scale
              m == IF T \in Stretched THEN Build(One, 0, (One * One) \div T.a, (One * One) \div T.d, 0, 0) ELSE [a |-> (T.a * One * One) \div (k * k), b |-> (T.c * One * One) \div (k * k),
                    c |-> (T.b * One * One) \div (k * k), d |-> (T.d * One * One) \div (k * k),
                    x |-> 0, y |-> 0, rc |-> T.rc, rs |-> -T.rs]
              p == Image(m, <<-T.x, -T.y>>)
          IN [m EXCEPT !.x = p[1], !.y = p[2]]
\* (the first step only spreads the members over the workers)
MCNext == \/ DOMAIN regs = {} /\ \E T \in Members \cup Stretched : regs' = Put(1, T)
          \/ DOMAIN regs = {1} /\ \E T \in (IF regs[1] \in Members THEN Members ELSE {}) \cup (IF regs[1] \in Stretched THEN Stretched ELSE {}) : regs' = Put(2, T)
MCSpec == TransInit /\ [][MCNext]_regs
\* steps about one point add up to a step about this point (which is why many small ones can be
\* told to make a big one)
AboutLaw ==
  DOMAIN regs = {} =>
    \A q, w \in Quarter, k, m \in Sizes, p \in Places :
      LET A == About(q[1], q[2], k, k, p[1], p[2])
          B == About(w[1], w[2], m, m, p[1], p[2])
          qw == TurnDir(A, w)
          C == About(qw[1], qw[2], Mul(k, m), Mul(k, m), p[1], p[2])
      IN /\ Image(A, p) = p
         /\ After(A, B) = C
         /\ MayRepeat(qw[1], qw[2], Mul(k, m), Mul(k, m), p[1], p[2], C)
         /\ A # C => ~MayRepeat(qw[1], qw[2], Mul(k, m), Mul(k, m), p[1], p[2], A)
Laws ==
  DOMAIN regs = {1, 2} =>
    LET S == regs[1]
        T == regs[2]
        I == Inv(S)
    IN /\ After(I, S) = Id /\ After(S, I) = Id
       /\ MayInvert(S, I) /\ (T # I => ~MayInvert(S, T))
       /\ MayCompose(S, T, After(S, T))
       /\ (T # Id => ~MayCompose(S, T, S)) /\ (S # Id => ~MayCompose(S, T, T))
       /\ MayDelta(S, T, After(I, T)) /\ (S # Id => ~MayDelta(S, T, T))
       /\ (After(I, T) # After(T, I) => ~MayDelta(S, T, After(T, I)))
       /\ \A p \in Probe :
            /\ Image(After(S, T), p) = Image(S, Image(T, p))
            /\ MayApply(S, p, Image(S, p)) /\ MayUnapply(S, Image(S, p), p)
            /\ MayUnapply(S, p, Image(I, p))
            /\ (Image(S, p) # Image(I, p)) => ~MayApply(S, p, Image(I, p)) /\ ~MayUnapply(S, p, Image(S, p))
       /\ \A n \in Quarter : /\ TurnDir(After(S, T), n) = TurnDir(S, TurnDir(T, n))
                             /\ MayTurn(S, n, TurnDir(S, n)) /\ MayUnturn(S, TurnDir(S, n), n)
                             /\ (S.rs # 0) => ~MayTurn(S, n, TurnDir(I, n)) /\ ~MayUnturn(S, n, TurnDir(S, n))
       /\ MayDefault(Id) /\ (S # Id => ~MayDefault(S))
=============================================================================
