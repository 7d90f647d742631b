---------------------------- MODULE FixedPoint ----------------------------
(* Fixed-point arithmetic within the 32-bit integers of TLC.               *)
EXTENDS Integers, Sequences, TLC

One == 65536                          \* unit of fixed-point numbers, 2^16

Abs(x) == IF x < 0 THEN -x ELSE x

RECURSIVE QuoRem(_, _, _)
(* <<(a b) div c, (a b) mod c>> for a, b >= 0, c > 0 without ever forming
   a b (4 (a + c) must be representable)                                  *)
QuoRem(a, b, c) ==
    IF b = 0 THEN <<0, 0>>
    ELSE LET h == TLCEval(QuoRem(a, b \div 4, c))
             t == (4 * h[2]) + (a * (b % 4))
         IN <<(4 * h[1]) + (t \div c), t % c>>

(* a b / c, rounded towards zero *)
MulDiv(a, b, c) ==
    LET m == QuoRem(Abs(a), Abs(b), Abs(c))[1]
    IN IF (a < 0) # ((b < 0) # (c < 0)) THEN -m ELSE m

RECURSIVE RootFrom(_, _, _)
RootFrom(n, r, bit) ==
    IF bit = 0 THEN r
    ELSE RootFrom(n, IF (r + bit) * (r + bit) <= n THEN r + bit ELSE r, bit \div 2)

(* largest integer whose square does not exceed n *)
Root(n) == RootFrom(n, 0, 32768 \div 2)

(* 2^-(1/2), 2^-(1/4), ... as fixed-point numbers *)
Halves == <<46341, 55109, 60097, 62757, 64132, 64830, 65182, 65359, 65447, 65492>>

RECURSIVE Fraction(_, _, _)
Fraction(x, k, y) ==
    IF k > 10 \/ x = 0 THEN y
    ELSE LET h == 2 ^ (10 - k)
         IN IF x >= h THEN Fraction(x - h, k + 1, MulDiv(y, Halves[k], One))
            ELSE Fraction(x, k + 1, y)

(* 2^-(x/1024) as <<m, e>> for m 2^-e with fixed-point m                   *)
Decay(x) == <<Fraction(x % 1024, 1, One), x \div 1024>>

Min2(x, y) == IF x < y THEN x ELSE y
=============================================================================
