----------------------------- MODULE LongRange -----------------------------
(* Long-range dynamical matrices and couplings of dipoles and quadrupoles.

   All quantities are chosen such that only powers of two, i, and square roots
   occur.  A system s has

     B     reciprocal lattice vectors (rows) in units of the inverse of 2 pi
           times the unit of length, i.e., wave vectors are k . B / 2 with
           k = 2 m + p for all integer m, where p / 2 are crystal coordinates
     det   cell volume of B (or area of its first two vectors)
     E     dielectric tensor (3D), effective thickness (2D)
     Z     for each atom: Born charges, [field][displacement]
     Q     for each atom: quadrupoles, [displacement][x][y], or <<>>
     c     for each atom: position in halves of the lattice vectors
     rm    for each atom: square root of its mass (1 if not divided)
     two   two-dimensional?
     t     3D, and 2D without range-separation parameter: Gaussian is
           2^(-k.B.E.B.k / t)
     s     2D: range-separation parameter in units of 2 log 2, or 0
     perp  with out-of-plane terms?
     box   sufficient range of m                                           *)
EXTENDS FixedPoint, FiniteSets, FiniteSetsExt, SequencesExt

Cart(s, k) == TLCEval([x \in 1 .. 3 |->
    (k[1] * s.B[1][x]) + (k[2] * s.B[2][x]) + (k[3] * s.B[3][x])])

Quad(E, n, d) == LET R(i) == IF d = 2 THEN (E[i][1] * n[1]) + (E[i][2] * n[2])
                             ELSE (E[i][1] * n[1]) + (E[i][2] * n[2]) + (E[i][3] * n[3])
                 IN IF d = 2 THEN (n[1] * R(1)) + (n[2] * R(2))
                    ELSE (n[1] * R(1)) + (n[2] * R(2)) + (n[3] * R(3))

Norm2(n) == (n[1] * n[1]) + (n[2] * n[2]) + (n[3] * n[3])

Limit(s) == IF ~ s.two THEN 17 * s.t
            ELSE IF s.s > 0 THEN (24 \div s.s) * (24 \div s.s)
            ELSE 17 * s.t

Waves(s, p) ==
    {k \in {<<(2 * m1) + p[1], (2 * m2) + p[2], (2 * m3) + p[3]>> :
            m1 \in (-s.box[1]) .. s.box[1], m2 \in (-s.box[2]) .. s.box[2],
            m3 \in (-s.box[3]) .. s.box[3]} :
        LET n == Cart(s, k)
            h == IF s.two THEN Norm2(n) ELSE Quad(s.E, n, 3)
        IN h > 0 /\ h <= Limit(s)}

(* small numbers <<m, e>> are kept precise by scaling fractions by 2^Lift  *)
Lift(d) == Min2(d[2], 10)
Lifted(d) == d[1] \div (2 ^ Min2(d[2] - Lift(d), 20))

(* 1 - tanh of half the argument of the decay, times 2^Lift                *)
Screen(d) == MulDiv(2 * Lifted(d), One, One + (d[1] \div (2 ^ Min2(d[2], 20))))

(* screened Coulomb interaction as fraction <<numerator, denominator>>     *)
Screened(s, n) ==
    IF ~ s.two THEN
        LET h == Quad(s.E, n, 3)
            d == Decay((1024 * h) \div s.t)
        IN <<s.det * Lifted(d), 16 * h * (2 ^ Lift(d))>>
    ELSE LET h == Norm2(n)
             r == Root(h * 1048576)
             e == Quad(s.E, n, 2)
         IN IF s.s = 0
            THEN LET d == Decay((1024 * h) \div s.t)
                 IN <<s.det * 32 * Lifted(d), (r + (512 * e)) * (2 ^ Lift(d))>>
            ELSE LET d == Decay(r * s.s)
                     f == Screen(d)
                 IN <<s.det * 64 * f, (2 * r * (2 ^ Lift(d))) + ((f * e) \div 64)>>

ScreenedPerp(s, n) ==
    LET r == Root(Norm2(n) * 1048576)
        d == Decay(r * s.s)
        h == (Screen(d) * r) \div 1024
    IN <<-(s.det * 128 * h), (1024 * (2 ^ Lift(d))) - ((h * s.E[3][3]) \div 128)>>

(* moments of all displacements: <<dipole, quadrupole>>                    *)
Moments(s, n) ==
    LET h == Norm2(n)
        F(i) == LET a == ((i - 1) \div 3) + 1
                    u == ((i - 1) % 3) + 1
                    z == (n[1] * s.Z[a][1][u]) + (n[2] * s.Z[a][2][u])
                         + (n[3] * s.Z[a][3][u])
                    q == IF s.Q = <<>> THEN 0
                         ELSE Quad(s.Q[a][u], n, 3)
                              - (IF s.two /\ s.s > 0 THEN h * s.Q[a][u][3][3] ELSE 0)
                IN <<4 * z, q>>
    IN TLCEval([i \in 1 .. (3 * Len(s.Z)) |-> F(i)])

MomentsPerp(s, n) ==
    LET F(i) == LET a == ((i - 1) \div 3) + 1
                    u == ((i - 1) % 3) + 1
                IN <<2 * s.Z[a][3][u], IF s.Q = <<>> THEN 0
                     ELSE (s.Q[a][u][3][1] * n[1]) + (s.Q[a][u][3][2] * n[2])>>
    IN TLCEval([i \in 1 .. (3 * Len(s.Z)) |-> F(i)])

(* i^e (x + i y) *)
Turn(e, x, y) == CASE e % 4 = 0 -> <<x, y>>
                   [] e % 4 = 1 -> <<-y, x>>
                   [] e % 4 = 2 -> <<-x, -y>>
                   [] e % 4 = 3 -> <<y, -x>>

Angle(s, k, a) == (k[1] * s.c[a][1]) + (k[2] * s.c[a][2]) + (k[3] * s.c[a][3])

Terms(s, p, perp) ==
    LET W == TLCEval(Waves(s, p))
        One1(k) == LET n == Cart(s, k)
                       w == Screened(s, n)
                       M == Moments(s, n)
                   IN [k |-> k, num |-> w[1], den |-> w[2], m |-> M, way |-> 1]
        Perp1(k) == LET n == Cart(s, k)
                        w == ScreenedPerp(s, n)
                        M == MomentsPerp(s, n)
                    IN [k |-> k, num |-> w[1], den |-> w[2], m |-> M, way |-> 2]
        T1 == TLCEval({One1(k) : k \in W})
    IN IF perp /\ s.two /\ s.s > 0 THEN TLCEval(T1 \cup {Perp1(k) : k \in W})
       ELSE T1

Zero == <<0, 0, 8>>
Add(x, y) == <<x[1] + y[1], x[2] + y[2], x[3] + y[3]>>
Error(v) == 2 + ((Abs(v[1]) + Abs(v[2])) \div 256)

(* element of the plain sum: <<real part, imaginary part, uncertainty>>    *)
Plain(s, T, i, j) ==
    LET a == ((i - 1) \div 3) + 1
        b == ((j - 1) \div 3) + 1
        One2(t) ==
            LET zi == t.m[i][1]
                qi == t.m[i][2]
                zj == t.m[j][1]
                qj == t.m[j][2]
                x == MulDiv(t.num, (zi * zj) + (qi * qj), t.den)
                y == MulDiv(t.num, (qi * zj) - (zi * qj), t.den)
                v == Turn(Angle(s, t.k, a) - Angle(s, t.k, b), x, y)
            IN TLCEval(<<v[1], v[2], Error(v)>>)
    IN FoldSet(LAMBDA t, u : TLCEval(Add(One2(t), u)), Zero, T)

Size(s) == 3 * Len(s.Z)

(* dynamical matrix at p / 2, where moving all atoms costs nothing at p = 0 *)
Dynamical(s, p) ==
    LET T0 == Terms(s, <<0, 0, 0>>, s.perp)
        T == IF p = <<0, 0, 0>> THEN T0 ELSE Terms(s, p, s.perp)
        N == Len(s.Z)
        RECURSIVE Rest(_, _, _)
        Rest(i, j, b) == IF b = 0 THEN <<0, 0, 0>>
            ELSE LET e == TLCEval(Plain(s, T0, i, (3 * (b - 1)) + ((j - 1) % 3) + 1))
                 IN Add(<<-e[1], -e[2], e[3]>>, Rest(i, j, b - 1))
        Elem(i, j) == IF (i - 1) \div 3 = (j - 1) \div 3
            THEN Add(Plain(s, T, i, j), Rest(i, j, N)) ELSE Plain(s, T, i, j)
    IN TLCEval([i \in 1 .. Size(s) |-> TLCEval([j \in 1 .. Size(s) |-> TLCEval(Elem(i, j))])])

(* coupling to any orbital at p / 2 *)
CouplingTo(s, p) ==
    LET T == Terms(s, p, FALSE)
        One3(t, i) ==
            LET x == MulDiv(t.num, 8 * t.m[i][2], t.den)
                y == MulDiv(t.num, 8 * t.m[i][1], t.den)
                v == Turn(-(Angle(s, t.k, ((i - 1) \div 3) + 1)), x, y)
            IN TLCEval(<<v[1], v[2], Error(v)>>)
    IN TLCEval([i \in 1 .. Size(s) |->
        FoldSet(LAMBDA t, u : TLCEval(Add(One3(t, i), u)), Zero, T)])

(* observation o (fixed-point, divided by masses f) of the expected e      *)
Near(o, e, f) == /\ Abs((o[1] * f) - e[1]) <= e[3] + f
                 /\ Abs((o[2] * f) - e[2]) <= e[3] + f

(* ---- total on the original mesh ---------------------------------------- *)

(* Splitting a total: what is stored is the total minus what the parameters
   stood for when the short-range part was updated.                        *)
Split(total, lr) == total - lr
Total(short, lr) == short + lr
=============================================================================
