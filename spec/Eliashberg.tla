----------------------------- MODULE Eliashberg -----------------------------
(* Parameters of McMillan's formula from electrons, phonons and their squared
   coupling on a mesh: with smeared Fermi surfaces (integer delta functions) or
   with isolines on triangles.  Squared phonon energies are powers of two.

   q   irreducible points of the phonon mesh (nq x nq)
   k   exponents of squared energies [q][nu]; Soft if not larger than eps
   e   electrons [k1][k2][band], g couplings [q][nu][k1][k2][m][n]: scattering
       from band n at k to band m at k + q                                     *)
EXTENDS Tetrahedron, Symmetry, FixedPoint

Soft == 99
Largest == 2                          \* exponents lie in -Largest .. Largest

RECURSIVE SumTo(_, _)
SumTo(v, n) == IF n = 0 THEN 0 ELSE v[n] + SumTo(v, n - 1)
Sum(v) == SumTo(v, Len(v))

Weights(q, nq) == [i \in 1 .. Len(q) |-> Cardinality(Orbit(60, q[i], nq))]
(* do the points represent the mesh, each point once?                         *)
Representative(q, nq) ==
    /\ \A p \in Mesh(nq) : \E i \in 1 .. Len(q) : p \in Orbit(60, q[i], nq)
    /\ Sum(Weights(q, nq)) = nq * nq

Grid(nk) == (1 .. nk) \X (1 .. nk)
Shifted(q, k, nk, nq) == LET s == nk \div nq
                         IN <<((k[1] - 1 + (q[1] * s)) % nk) + 1, ((k[2] - 1 + (q[2] * s)) % nk) + 1>>
Bands(e) == 1 .. Len(e[1][1])

(* delta(x) = c[1] + c[2] x^2                                                  *)
Delta(c, x) == c[1] + (c[2] * x * x)

RECURSIVE Fold2(_, _)
Fold2(S, g) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN g[t] + Fold2(S \ {t}, g)

(* smeared: integers                                                          *)
SmearedPairs(r, i, w(_, _, _)) ==
    LET nk == Len(r.e)
        S == Grid(nk) \X Bands(r.e) \X Bands(r.e)
        g == TLCEval([t \in S |->
                LET p == Shifted(r.q[i], t[1], nk, r.nq)
                IN Delta(r.c, r.e[p[1]][p[2]][t[2]]) * Delta(r.c, r.e[t[1][1]][t[1][2]][t[3]])
                    * w(t[1], t[2], t[3])])
    IN Fold2(S, g)
SmearedStates(r) ==
    LET S == Grid(Len(r.e)) \X Bands(r.e)
    IN Fold2(S, TLCEval([t \in S |-> Delta(r.c, r.e[t[1][1]][t[1][2]][t[2]])]))

(* isolines: fixed-point numbers                                              *)
Fine == 16384
Divisible == 12                       \* differences of energies divide this number
Sheet(e, n) == [i \in 1 .. Len(e) |-> [j \in 1 .. Len(e) |-> e[i][j][n]]]
Moved(f, q, nq) == [i \in 1 .. Len(f) |-> [j \in 1 .. Len(f) |->
                    LET p == Shifted(q, <<i, j>>, Len(f), nq) IN f[p[1]][p[2]]]]
IsolinePairs(r, i, w(_, _, _)) ==
    LET S == Bands(r.e) \X Bands(r.e)
        g == TLCEval([t \in S |->
                LET nk == Len(r.e)
                    h == [a \in 1 .. nk |-> [b \in 1 .. nk |-> w(<<a, b>>, t[1], t[2])]]
                    X == TLCEval(Crossings(Sheet(r.e, t[2]), Moved(Sheet(r.e, t[1]), r.q[i], r.nq), h, 0))
                    P == TLCEval(Places(X))
                IN SumOver(P, TLCEval([p \in P |-> Weight(X, p, Fine)]))])
    IN Fold2(S, g)
IsolineStates(r) == Sum([n \in 1 .. Len(r.e[1][1]) |-> States(Divisible, Sheet(r.e, n), 0)])

Pairs(r, i, w(_, _, _)) == IF r.tetra THEN IsolinePairs(r, i, w) ELSE SmearedPairs(r, i, w)
(* times nk^2, or with isolines times 4 Divisible^2 nk^2                       *)
Density(r) == IF r.tetra THEN IsolineStates(r) ELSE SmearedStates(r)
DensityUnit(r) == Len(r.e) * Len(r.e) * (IF r.tetra THEN 4 * Divisible * Divisible ELSE 1)

(* couplings by mode, weighted with the number of equivalent points            *)
Couplings(r) ==
    LET W == Weights(r.q, r.nq)
    IN [i \in 1 .. Len(r.q) |-> [nu \in 1 .. Len(r.k[i]) |->
        IF r.k[i][nu] = Soft THEN 0
        ELSE LET w(p, m, n) == r.g[i][nu][p[1]][p[2]][m][n]
             IN W[i] * Pairs(r, i, w)]]
Normal(r) ==
    LET W == Weights(r.q, r.nq)
        one(p, m, n) == 1
    IN Sum([i \in 1 .. Len(r.q) |-> W[i] * Pairs(r, i, one)])

(* sums over modes of C / w2, C, and C log2(w2) / w2, times 2^Largest           *)
Over(r, C, h(_, _)) == Sum([i \in 1 .. Len(r.q) |-> Sum([nu \in 1 .. Len(r.k[i]) |->
                            IF r.k[i][nu] = Soft THEN 0 ELSE h(C[i][nu], r.k[i][nu])])])
Strength(r, C) == LET h(c, k) == c * (2 ^ (Largest - k)) IN Over(r, C, h)
Flatly(r, C) == LET h(c, k) == c * (2 ^ Largest) IN Over(r, C, h)
Logarithm(r, C) == LET h(c, k) == c * k * (2 ^ (Largest - k)) IN Over(r, C, h)

(* ---- McMillan's formula with Allen and Dynes' corrections ------------------ *)
(* fixed-point numbers (One); mu in percent.  Binary logarithm of Tc / wlog:    *)
Divisor(lam, mu) == LET d == lam - MulDiv(mu, One + MulDiv(lam, 62, 100), 100)
                    IN IF d < 66 THEN 66 ELSE d
Exponent(lam, mu) == MulDiv(98330, One + lam, Divisor(lam, mu))      \* 1.04 log2(exp 1)
LogTc(lam, mu) == 867655 - Exponent(lam, mu)                      \* -log2(1.2 kB)
(* strong coupling: (f^3 - 1)^2 = (lam / L)^3                                   *)
Cube(x) == MulDiv(x, MulDiv(x, x, One), One)
L1(mu) == MulDiv(161219, 1000 + (38 * mu), 1000)                  \* 2.46 (1 + 3.8 mu)
L2(mu, ratio) == MulDiv(MulDiv(119276, 1000 + (63 * mu), 1000), ratio, One)
Shape(lam, mu, ratio) ==
    LET l2 == MulDiv(lam, lam, One)
        L == L2(mu, ratio)
        d == l2 + MulDiv(L, L, One)
    IN One + MulDiv(ratio - One, l2, d)
=============================================================================
