-------------------------------- MODULE Fixed --------------------------------
(* Fixed-point arithmetic within TLC's 32-bit integers.  A number is an integer of millionths; values
   beyond 1000000000 (1000.0) stand for no number, or one too large to compute with.             *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Huge == 2000000000
IsNum(x) == Abs(x) <= 1000000000
Near(a, b, tol) == IsNum(a) /\ IsNum(b) /\ Abs(a - b) <= tol
Plus(a, b) == IF ~IsNum(a) \/ ~IsNum(b) \/ ~IsNum(a + b) THEN Huge ELSE a + b

(* product of two non-negative numbers, rounded down by at most two millionths *)
MulPos(a, b) ==
  LET a1 == a \div 1000  a0 == a % 1000
      b1 == b \div 1000  b0 == b % 1000
  IN IF a1 > 0 /\ b1 > 1000000000 \div a1 THEN Huge
     ELSE a1 * b1 + ((a1 * b0) \div 1000) + ((a0 * b1) \div 1000) + ((a0 * b0) \div 1000000)
Mul(a, b) == IF ~IsNum(a) \/ ~IsNum(b) THEN Huge
             ELSE LET m == MulPos(Abs(a), Abs(b)) IN
                  IF m >= 1000000000 THEN Huge ELSE IF (a < 0) # (b < 0) THEN -m ELSE m
(* an error of ea in a and of eb in b makes at most this error in the product *)
MulErr(a, ea, b, eb) == IF ~IsNum(a) \/ ~IsNum(b) THEN 0
                        ELSE ea * (Abs(b) \div 1000000 + 1) + eb * (Abs(a) \div 1000000 + 1) + 4

(* ---- ten-millionths: e^(-x) for x >= 0, and the square of the sine of parts of a turn ---- *)
MulQ(a, b) == LET a1 == a \div 10000  a0 == a % 10000  b1 == b \div 10000  b0 == b % 10000
              IN a1 * b1 * 10 + ((a1 * b0) \div 1000) + ((a0 * b1) \div 1000) + ((a0 * b0) \div 10000000)
(* e^(-2^j / 32), j = 0..8 *)
ExpPow == <<9692332, 9394131, 8824969, 7788008, 6065307, 3678794, 1353353, 183156, 3355>>
RECURSIVE ExpBits(_, _)
ExpBits(k, j) == IF k = 0 THEN 10000000 ELSE
                 IF j = 9 THEN (IF k = 0 THEN 10000000 ELSE 0) ELSE
                 LET rest == ExpBits(k \div 2, j + 1) IN IF k % 2 = 1 THEN MulQ(ExpPow[j + 1], rest) ELSE rest
ExpNeg(x) == LET k == x \div 312500
                 r == x % 312500
                 small == 10000000 - r + (MulQ(r, r) \div 2) - (MulQ(MulQ(r, r), r) \div 6)
             IN IF k >= 512 THEN 0 ELSE MulQ(small, ExpBits(k, 0))
(* sin(pi k / p)^2 *)
Sin2(k, p) == LET j == (k % p) + 1 IN
   CASE p = 1 -> 0
     [] p = 2 -> <<0, 10000000>>[j]
     [] p = 3 -> <<0, 7500000, 7500000>>[j]
     [] p = 4 -> <<0, 5000000, 10000000, 5000000>>[j]
     [] p = 5 -> <<0, 3454915, 9045085, 9045085, 3454915>>[j]
     [] p = 6 -> <<0, 2500000, 7500000, 10000000, 7500000, 2500000>>[j]
     [] p = 8 -> <<0, 1464466, 5000000, 8535534, 10000000, 8535534, 5000000, 1464466>>[j]
=============================================================================
