-------------------------------- MODULE Ints --------------------------------
(* Integer helpers for 32-bit TLC arithmetic.                               *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

\* division rounded to the nearest integer (d > 0)
RDiv(x, d) == (2 * x + d) \div (2 * d)
\* the same without doubling x, for |x| up to 2^31 - d
RDivBig(x, d) == (x + d \div 2) \div d

RECURSIVE ISqrtN(_, _)
ISqrtN(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE ISqrtN(n, y)
\* floor of the square root of n >= 0 (Newton from above)
ISqrt(n) ==
  IF n < 2 THEN n
  ELSE LET x0 == IF n < 4096 THEN 64
                 ELSE IF n < 262144 THEN 512
                 ELSE IF n < 16777216 THEN 4096
                 ELSE IF n < 268435456 THEN 16384 ELSE 46340
       IN ISqrtN(n, x0)

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % (IF b < 0 THEN -b ELSE b))

\* fold over 1..n with a running maximum / minimum of f(i)
RECURSIVE MaxOver(_, _, _, _)
MaxOver(f(_), i, n, acc) == IF i > n THEN acc ELSE MaxOver(f, i + 1, n, Max2(acc, f(i)))
RECURSIVE MinOver(_, _, _, _)
MinOver(f(_), i, n, acc) == IF i > n THEN acc ELSE MinOver(f, i + 1, n, Min2(acc, f(i)))
MaxSeq(f(_), n) == MaxOver(f, 2, n, f(1))
MinSeq(f(_), n) == MinOver(f, 2, n, f(1))

NearInt(a, b, tol) == Abs(a - b) <= tol
=============================================================================
