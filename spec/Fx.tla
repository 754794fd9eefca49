--------------------------------- MODULE Fx ---------------------------------
(* Fixed-point arithmetic for TLC's 32-bit integers.                         *)
(* A real x is represented by the integer x * 2^18 (rounded); |x| < 1024.    *)
EXTENDS Integers, Sequences, TLC

ONE == 262144                      \* 2^18
BIG == 268435455                   \* 2^28 - 1, largest magnitude
NAN == 1000000000                  \* sentinel for "not a finite number"

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Min(x, y) == IF x < y THEN x ELSE y
Max(x, y) == IF x > y THEN x ELSE y

\* |a|, |b| <= BIG and the result below 2^31: floor of the product
MulNN(a, b) ==
  LET a1 == a \div 32768  a0 == a % 32768
      b1 == b \div 32768  b0 == b % 32768
  IN  a1*b1*4096 + ((a1*b0 + a0*b1) + (a0*b0) \div 32768) \div 8
Mul(a, b) == IF a >= 0 THEN (IF b >= 0 THEN MulNN(a, b) ELSE -MulNN(a, -b))
             ELSE (IF b >= 0 THEN -MulNN(-a, b) ELSE MulNN(-a, -b))

\* a / b, b > 0, both below 2^28; the quotient below 2^13
DivNN(a, b) ==
  LET q0 == a \div b              r0 == a % b
      q1 == q0*8 + (r0*8) \div b  r1 == (r0*8) % b
      q2 == q1*8 + (r1*8) \div b  r2 == (r1*8) % b
      q3 == q2*8 + (r2*8) \div b  r3 == (r2*8) % b
      q4 == q3*8 + (r3*8) \div b  r4 == (r3*8) % b
      q5 == q4*8 + (r4*8) \div b  r5 == (r4*8) % b
  IN  q5*8 + (r5*8) \div b
Div(a, b) == IF (a >= 0) = (b > 0) THEN DivNN(Abs(a), Abs(b)) ELSE -DivNN(Abs(a), Abs(b))

\* a * n / d for integers 0 <= n <= d, without intermediate overflow (d < 2^15, or both whole minutes)
RECURSIVE Frac(_, _, _)
Frac(a, n, d) ==
  IF d > 32767 THEN Frac(a, n \div 60, d \div 60) ELSE
  LET p == Abs(a)
      h == p \div d  r == p % d
  IN  Sgn(a) * (h*n + (r*n) \div d)

\* sum of a sequence of integers
RECURSIVE SumSeqTo(_, _)
SumSeqTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumSeqTo(s, n-1)
SumSeq(s) == SumSeqTo(s, Len(s))

(* ---- trigonometry (argument in thousandths of a degree, |x| <= 360000) ---- *)
\* pi/180/1000 * 2^18 = 4.5752..; keep precision by scaling
MDeg2Rad(md) ==   \* thousandths of degrees to radians (fixed point)
  LET p == Abs(md)           \* pi/180000 * 2^18 = 4.575276
  IN Sgn(md) * ((p*4575 + (p*276) \div 1000) \div 1000)

CosRad(x) ==     \* Taylor series, |x| <= pi/2
  LET x2 == Mul(x, x)
      t6 == ONE - x2 \div 132
      t5 == ONE - Mul(x2, t6) \div 90
      t4 == ONE - Mul(x2, t5) \div 56
      t3 == ONE - Mul(x2, t4) \div 30
      t2 == ONE - Mul(x2, t3) \div 12
  IN  ONE - Mul(x2, t2) \div 2
CosMDeg(md) == CosRad(MDeg2Rad(md))      \* |md| <= 90000

\* sin(x)/x for |x| <= 1 rad (fixed point)
Sinc(x) == LET x2 == Mul(x, x) IN
  ONE - Mul(x2, ONE - Mul(x2, ONE - x2 \div 42) \div 20) \div 6

Between(x, lo, hi) == lo <= x /\ x <= hi
Near(x, y, tol) == Abs(x - y) <= tol
=============================================================================
