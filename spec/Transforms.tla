------------------------------ MODULE Transforms ------------------------------
(* A bank of registers holding plane transforms, and the operations a user   *)
(* has on them: build, apply, un-apply, compose, invert, take the delta.     *)
(*                                                                           *)
(* The meaning of a transform is the affine map it applies to points: a      *)
(* matrix (entries a b c d, scaled by One) and a position, and the map it    *)
(* applies to directions: a plane rotation (rc, rs), scaled by One.          *)
(*   point (px, py) |-> (a px + b py + x,  c px + d py + y)                  *)
(* Results are observed through the public API (images of the origin and of  *)
(* the unit vectors) and must be close to what the operands mean; registers  *)
(* then take the observed meaning, so that errors do not add up.             *)
EXTENDS Ints

CONSTANTS One,     \* fixed-point one
          RelM,    \* matrices may differ by 1/RelM + AbsM
          AbsM,
          RelP,    \* points may differ by 1/RelP + AbsP
          AbsP

VARIABLE regs
tvars == regs

Id == [a |-> One, b |-> 0, c |-> 0, d |-> One, x |-> 0, y |-> 0, rc |-> One, rs |-> 0]

Mul(p, q) == RDivBig(p * q, One)
Mul2(p, q, r, s) == RDivBig(p * q + r * s, One)

Image(T, p) == <<Mul2(T.a, p[1], T.b, p[2]) + T.x, Mul2(T.c, p[1], T.d, p[2]) + T.y>>
TurnDir(T, n) == <<Mul2(T.rc, n[1], -T.rs, n[2]), Mul2(T.rs, n[1], T.rc, n[2])>>

\* scale, then rotate, then translate
Build(c, s, kx, ky, x, y) ==
  [a |-> Mul(c, kx), b |-> -Mul(s, ky), c |-> Mul(s, kx), d |-> Mul(c, ky), x |-> x, y |-> y, rc |-> c, rs |-> s]

\* scale and rotate about a point
About(c, s, kx, ky, px, py) ==
  LET B == Build(c, s, kx, ky, 0, 0)
      q == Image(B, <<px, py>>)
  IN [B EXCEPT !.x = px - q[1], !.y = py - q[2]]

\* S after T
After(S, T) ==
  LET p == Image(S, <<T.x, T.y>>)
  IN [a |-> Mul2(S.a, T.a, S.b, T.c), b |-> Mul2(S.a, T.b, S.b, T.d),
      c |-> Mul2(S.c, T.a, S.d, T.c), d |-> Mul2(S.c, T.b, S.d, T.d),
      x |-> p[1], y |-> p[2],
      rc |-> Mul2(S.rc, T.rc, -S.rs, T.rs), rs |-> Mul2(S.rs, T.rc, S.rc, T.rs)]

-----------------------------------------------------------------------------
NearP(p, q, m) == /\ Abs(p[1] - q[1]) <= AbsP + m \div RelP
                  /\ Abs(p[2] - q[2]) <= AbsP + m \div RelP
NearM(p, q, m) == Abs(p - q) <= AbsM + m \div RelM
Big(T) == Max2(One, Max2(Max2(Abs(T.a), Abs(T.b)), Max2(Abs(T.c), Abs(T.d))))
Reach(T) == Max2(Abs(T.x), Abs(T.y))
Near(S, T, m, r) ==
  /\ NearM(S.a, T.a, m) /\ NearM(S.b, T.b, m) /\ NearM(S.c, T.c, m) /\ NearM(S.d, T.d, m)
  /\ NearP(<<S.x, S.y>>, <<T.x, T.y>>, r)
  /\ NearM(S.rc, T.rc, One) /\ NearM(S.rs, T.rs, One)

Put(r, T) == [k \in DOMAIN regs \cup {r} |-> IF k = r THEN T ELSE regs[k]]

\* guards: may the observed result be what the operation yields?
MayBuild(c, s, kx, ky, x, y, T) == Near(T, Build(c, s, kx, ky, x, y), Max2(One, Max2(Abs(kx), Abs(ky))), Max2(Abs(x), Abs(y)))
\* many equal steps about one point: the whole way about this point
MayRepeat(c, s, kx, ky, px, py, T) == Near(T, About(c, s, kx, ky, px, py), Max2(One, Max2(Abs(kx), Abs(ky))), 3 * Max2(Abs(px), Abs(py)))
MayDefault(T) == T = Id
MayCompose(S, T, R) == Near(R, After(S, T), Max2(Big(S), Big(T)), Max2(Reach(S), Reach(T)))
MayInvert(S, R) == LET m == Max2(Big(S), Big(R))
                       q == Max2(Reach(S), Reach(R))
                   IN Near(After(S, R), Id, m, q) /\ Near(After(R, S), Id, m, q)
\* the delta from S to T, applied before S, is T
MayDelta(S, T, R) == Near(After(S, R), T, Max2(Big(S), Big(R)), Max2(Max2(Reach(S), Reach(T)), Reach(R)))
MayApply(S, p, q) == NearP(q, Image(S, p), Max2(Abs(q[1]), Abs(q[2])))
\* un-applying: applying the result gives the point back
MayUnapply(S, p, q) == NearP(p, Image(S, q), Max2(Abs(p[1]), Abs(p[2]))) 
MayTurn(S, n, m) == LET w == TurnDir(S, n) IN NearM(w[1], m[1], One) /\ NearM(w[2], m[2], One)
MayUnturn(S, n, m) == LET w == TurnDir(S, m) IN NearM(w[1], n[1], One) /\ NearM(w[2], n[2], One)
\* there and back
MayReturn(p, q) == NearP(p, q, Max2(Abs(p[1]), Abs(p[2])))

-----------------------------------------------------------------------------
TransInit == regs = <<>>

New(r, c, s, kx, ky, x, y, T) == MayBuild(c, s, kx, ky, x, y, T) /\ regs' = Put(r, T)
Repeat(r, c, s, kx, ky, px, py, T) == MayRepeat(c, s, kx, ky, px, py, T) /\ regs' = Put(r, T)
Default(r, T) == MayDefault(T) /\ regs' = Put(r, T)
Compose(r, i, j, T) == i \in DOMAIN regs /\ j \in DOMAIN regs /\ MayCompose(regs[i], regs[j], T) /\ regs' = Put(r, T)
Invert(r, i, T) == i \in DOMAIN regs /\ MayInvert(regs[i], T) /\ regs' = Put(r, T)
Delta(r, i, j, T) == i \in DOMAIN regs /\ j \in DOMAIN regs /\ MayDelta(regs[i], regs[j], T) /\ regs' = Put(r, T)
Apply(i, p, q) == i \in DOMAIN regs /\ MayApply(regs[i], p, q) /\ UNCHANGED regs
Unapply(i, p, q) == i \in DOMAIN regs /\ MayUnapply(regs[i], p, q) /\ UNCHANGED regs
Turn(i, n, m) == i \in DOMAIN regs /\ MayTurn(regs[i], n, m) /\ UNCHANGED regs
Unturn(i, n, m) == i \in DOMAIN regs /\ MayUnturn(regs[i], n, m) /\ UNCHANGED regs
=============================================================================
