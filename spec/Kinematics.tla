------------------------------ MODULE Kinematics ------------------------------
(* Integer arithmetic for momenta. Momenta are <<E, px, py, pz>> with integer
   components whose transverse momentum is an integer (Pythagorean). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a < b THEN b ELSE a

(* integer square root, rounded down *)
RECURSIVE SqrtIn(_, _, _)
SqrtIn(x, lo, hi) ==
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2
       IN IF m * m <= x THEN SqrtIn(x, m, hi) ELSE SqrtIn(x, lo, m)
Sqrt(x) == IF x < 1 THEN 0 ELSE SqrtIn(x, 1, MinOf(x, 46340) + 1)

Pt2(p) == p[2] * p[2] + p[3] * p[3]
Pt(p) == Sqrt(Pt2(p))

(* a * b < c * d for positive integers, without overflow: a / c < d / b *)
RECURSIVE LessFrac(_, _, _, _)
LessFrac(a, c, d, b) ==  \* a / c < d / b
  LET q1 == a \div c
      q2 == d \div b
  IN IF q1 # q2 THEN q1 < q2
     ELSE LET r1 == a % c
              r2 == d % b
          IN IF r2 = 0 THEN FALSE
             ELSE IF r1 = 0 THEN TRUE
             ELSE LessFrac(b, r2, c, r1)  \* c / r1 > b / r2
LessProd(a, b, c, d) ==
  IF c = 0 \/ d = 0 THEN FALSE ELSE IF a = 0 \/ b = 0 THEN TRUE ELSE LessFrac(a, c, d, b)

(* azimuthal angle in units of 1e-4 (CORDIC) *)
AtanTab == <<785398, 463648, 244979, 124355, 62419, 31240, 15624, 7812, 3906, 1953, 977, 488, 244, 122, 61, 31, 15, 8>>
RECURSIVE Cordic(_, _, _, _)
Cordic(x, y, k, phi) ==
  IF k > 18 THEN phi
  ELSE LET f == 2 ^ (k - 1)
       IN IF y >= 0 THEN Cordic(x + y \div f, y - x \div f, k + 1, phi + AtanTab[k])
          ELSE Cordic(x - y \div f, y + x \div f, k + 1, phi - AtanTab[k])
Pi == 31416
(* absolute angle between two transverse momenta, 0..Pi: rotate the second into the frame of the first *)
DeltaPhi(p, q) ==
  LET dot == p[2] * q[2] + p[3] * q[3]
      cross == Abs(p[2] * q[3] - p[3] * q[2])
      scale == MaxOf(Abs(dot), cross)
      \* keep the CORDIC numbers within 32 bits
      s == MaxOf(1, 100000 \div MaxOf(1, scale))
      d == MaxOf(1, scale \div 100000)
      x == (dot * s) \div d
      y == (cross * s) \div d
  IN IF x >= 0 THEN Cordic(x * 1024, y * 1024, 1, 0) \div 100
     ELSE Pi - (Cordic(-x * 1024, y * 1024, 1, 0) \div 100)
==============================================================================
