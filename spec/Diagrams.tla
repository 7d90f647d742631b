------------------------------- MODULE Diagrams -------------------------------
(* Diagrams on a mesh of nk[1] x nk[2] x nk[3] points, exactly: energies are
   integers x (in units of kT) and the occupation f is an integer polynomial
   (coefficients in ascending order), so that all divided differences
   [f(x) - f(y)] / (x - y), including their limits -delta(x), are integers.
   Couplings and eigenvectors are Gaussian integers <<re, im>>.               *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

Z0 == <<0, 0>>
ZAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
ZMul(a, b) == <<(a[1] * b[1]) - (a[2] * b[2]), (a[1] * b[2]) + (a[2] * b[1])>>
ZConj(a) == <<a[1], -a[2]>>
ZScale(s, a) == <<s * a[1], s * a[2]>>
ZSum(F(_), S) == FoldSet(LAMBDA k, acc : ZAdd(acc, F(k)), Z0, S)
NSum(F(_), S) == FoldSet(LAMBDA k, acc : acc + F(k), 0, S)

RECURSIVE Pow(_, _), Horner(_, _), Dd1(_, _, _, _), Dd2(_, _, _, _, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
Horner(c, x) == IF c = <<>> THEN 0 ELSE Head(c) + (x * Horner(Tail(c), x))
(* complete homogeneous polynomials of degree n in two or three variables *)
Hom2(x, y, n) == NSum(LAMBDA i : Pow(x, i) * Pow(y, n - i), 0 .. n)
Hom3(x, y, z, n) == NSum(LAMBDA i : Pow(x, i) * Hom2(y, z, n - i), 0 .. n)
Dd1(c, x, y, n) == IF n > Len(c) THEN 0 ELSE
  (IF n = 1 THEN 0 ELSE c[n] * Hom2(x, y, n - 2)) + Dd1(c, x, y, n + 1)
Dd2(c, x, y, z, n) == IF n > Len(c) THEN 0 ELSE
  (IF n < 3 THEN 0 ELSE c[n] * Hom3(x, y, z, n - 3)) + Dd2(c, x, y, z, n + 1)

F(c, x) == Horner(c, x)
(* [f(x) - f(y)] / (x - y); the derivative at y if the difference is at most gap *)
Div1(c, x, y, gap) ==
  LET d == IF x < y THEN y - x ELSE x - y
  IN IF d <= gap THEN Dd1(c, y, y, 1) ELSE Dd1(c, x, y, 1)
Div2(c, x, y, z) == Dd2(c, x, y, z, 1)
Deriv(c, x) == Dd1(c, x, x, 1)

(* mesh points are numbered 0 .. N - 1 in row-major order *)
Size(nk) == nk[1] * nk[2] * nk[3]
Point(k, nk) == <<k \div (nk[2] * nk[3]), (k \div nk[3]) % nk[2], k % nk[3]>>
Index(p, nk) == ((((p[1] % nk[1]) * nk[2]) + (p[2] % nk[2])) * nk[3]) + (p[3] % nk[3])
Plus(k, q, nk) == LET p == Point(k, nk)
                  IN Index(<<p[1] + q[1], p[2] + q[2], p[3] + q[3]>>, nk)
Ks(nk) == 0 .. Size(nk) - 1

(* ---- quantities times N kT / 2 (unless noted); x[k + 1][n], U[k + 1][a][n] -- *)
(* pairs of different states only *)
Susceptibility(c, x, nk, q) ==
  NSum(LAMBDA k : LET a == x[Plus(k, q, nk) + 1][1]  b == x[k + 1][1]
                  IN IF Index(q, nk) = 0 THEN Deriv(c, b)
                     ELSE IF a = b THEN 0 ELSE Dd1(c, a, b, 1), Ks(nk))

(* band pairs: <<k, m, n>> *)
Triples(nk, nb) == Ks(nk) \X (1 .. nb) \X (1 .. nb)
Bubble(c, x, nk, q, t, gap) ==
  Div1(c, x[Plus(t[1], q, nk) + 1][t[2]], x[t[1] + 1][t[3]], gap)

Polarization(c, x, nk, q, nb, U, sub, gap, a, b) ==
  ZSum(LAMBDA t :
    LET kq == Plus(t[1], q, nk) + 1
        k == t[1] + 1
        UU(i) == ZMul(ZConj(U[kq][i][t[2]]), U[k][i][t[3]])
    IN IF sub # <<>> /\ sub[kq][t[2]] /\ sub[k][t[3]] THEN Z0
       ELSE ZScale(Bubble(c, x, nk, q, t, gap), ZMul(ZConj(UU(a)), UU(b))),
    Triples(nk, nb))

(* weight of states outside (or at the edge of) an energy window: h a polynomial
   for the smoothed step, e energy, w half width, s smearing numerator/denominator *)
Theta(h, e, w, s) == 2 - F(h, ((e - w) * s[2]) \div s[1]) - F(h, ((-e - w) * s[2]) \div s[1])
Edge(h, e, w, s) == ((Deriv(h, ((e - w) * s[2]) \div s[1]) + Deriv(h, ((-e - w) * s[2]) \div s[1])) * s[2]) \div s[1]
Envelope(d, x, nk, q, t) ==
  IF d.kind = "none" THEN 1 ELSE
  LET a == x[Plus(t[1], q, nk) + 1][t[2]]  b == x[t[1] + 1][t[3]] IN
  IF d.kind = "window" THEN Theta(d.h, a, d.w, d.s) * Theta(d.h, b, d.w, d.s)
  ELSE (Theta(d.h, a, d.w, d.s) * Edge(d.h, b, d.w, d.s))
     + (Edge(d.h, a, d.w, d.s) * Theta(d.h, b, d.w, d.s))

(* [f(b) - f(a)] / (b - a + omega) times lcm; omega = <<re, im>> # 0 *)
Dynamic(c, a, b, omega, lcm) ==
  LET re == (b - a) + omega[1]
      m == (re * re) + (omega[2] * omega[2])
      df == F(c, b) - F(c, a)
  IN <<(lcm * df * re) \div m, (-lcm * df * omega[2]) \div m>>
Integrand(r, q, t, omega) ==
  LET a == r.x[Plus(t[1], q, r.nk) + 1][t[2]]
      b == r.x[t[1] + 1][t[3]]
  IN ZScale(Envelope(r.window, r.x, r.nk, q, t),
       IF omega = Z0 THEN <<r.lcm * Div1(r.f, a, b, r.gap), 0>>
       ELSE Dynamic(r.f, a, b, omega, r.lcm))

Triangle(c, x, nk, q, Q, t) == \* t = <<k, a, b, c>>
  Div2(c, x[t[1] + 1][t[2]], x[Plus(t[1], q, nk) + 1][t[3]], x[Plus(t[1], Q, nk) + 1][t[4]])
=============================================================================
