---------------------------- MODULE Tetrahedron ----------------------------
(* Integrals over isolines of functions that are linear on the triangles of a
   periodic triangular mesh (2D tetrahedron method).  Meshes are sequences of
   rows, indices of mesh points start with zero.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Size(x) == IF x < 0 THEN -x ELSE x
At(f, p) == LET n == Len(f) IN f[(p[1] % n) + 1][(p[2] % n) + 1]
Triangles(n) == {<< <<i + k, j + k>>, <<i + 1, j>>, <<i, j + 1>> >> :
                    i, j \in 0 .. n - 1, k \in 0 .. 1}

(* corners in order of increasing function values                             *)
Sorted(f, t) == CHOOSE s \in {<<t[1], t[2], t[3]>>, <<t[1], t[3], t[2]>>, <<t[2], t[1], t[3]>>,
                              <<t[2], t[3], t[1]>>, <<t[3], t[1], t[2]>>, <<t[3], t[2], t[1]>>} :
                    At(f, s[1]) <= At(f, s[2]) /\ At(f, s[2]) <= At(f, s[3])

RECURSIVE SumOver(_, _)
SumOver(S, g) == IF S = {} THEN 0
                 ELSE LET t == CHOOSE t \in S : TRUE IN g[t] + SumOver(S \ {t}, g)

(* ---- densities of states ------------------------------------------------- *)
(* All energies are doubled (D) to allow for energies in between.  Differences
   divide L.  Fractions of the triangle below e, in units of 1 / (4 L^2):      *)
Below(L, e, A, B, C) ==
    IF e <= A THEN 0
    ELSE IF e >= C THEN 4 * L * L
    ELSE IF e < B THEN (e - A) * (e - A) * (L \div ((B - A) \div 2)) * (L \div ((C - A) \div 2))
    ELSE (4 * L * L) - ((C - e) * (C - e) * (L \div ((C - A) \div 2)) * (L \div ((C - B) \div 2)))

(* slopes of half this fraction on both sides of e, in units of 1 / (2 L^2)    *)
Rising(L, e, A, B, C) == (e - A) * (L \div ((B - A) \div 2)) * (L \div ((C - A) \div 2))
Falling(L, e, A, B, C) == (C - e) * (L \div ((C - A) \div 2)) * (L \div ((C - B) \div 2))
SlopeRight(L, e, A, B, C) == IF A <= e /\ e < B THEN Rising(L, e, A, B, C)
                             ELSE IF B <= e /\ e < C THEN Falling(L, e, A, B, C) ELSE 0
SlopeLeft(L, e, A, B, C) == IF A < e /\ e <= B THEN Rising(L, e, A, B, C)
                            ELSE IF B < e /\ e <= C THEN Falling(L, e, A, B, C) ELSE 0

Flat(f, e) == \E t \in Triangles(Len(f)) : \A i \in 1 .. 3 : 2 * At(f, t[i]) = e

(* density of states times 4 L^2 n^2                                           *)
States(L, f, e) ==
    LET T == Triangles(Len(f))
        g == TLCEval([t \in T |-> LET s == Sorted(f, t)
                          A == 2 * At(f, s[1])  B == 2 * At(f, s[2])  C == 2 * At(f, s[3])
                      IN SlopeLeft(L, e, A, B, C) + SlopeRight(L, e, A, B, C)])
    IN SumOver(T, g)

(* same, weighted with the mean of function h on the isoline, in units of
   1 / (16 L^3 n^2)                                                            *)
Between(L, e, A, B, a, b) == (((e - A) * b) + ((B - e) * a)) * (L \div ((B - A) \div 2))
MeanRising(L, e, A, B, C, a, b, c) == Between(L, e, A, B, a, b) + Between(L, e, A, C, a, c)
MeanFalling(L, e, A, B, C, a, b, c) == Between(L, e, A, C, a, c) + Between(L, e, B, C, b, c)
Coupled(L, f, h, e) ==
    LET T == Triangles(Len(f))
        g == TLCEval([t \in T |-> LET s == Sorted(f, t)
                          A == 2 * At(f, s[1])  B == 2 * At(f, s[2])  C == 2 * At(f, s[3])
                          a == At(h, s[1])  b == At(h, s[2])  c == At(h, s[3])
                      IN (IF A < e /\ e <= B THEN Rising(L, e, A, B, C) * MeanRising(L, e, A, B, C, a, b, c)
                          ELSE IF B < e /\ e <= C THEN Falling(L, e, A, B, C) * MeanFalling(L, e, A, B, C, a, b, c)
                          ELSE 0)
                       + (IF A <= e /\ e < B THEN Rising(L, e, A, B, C) * MeanRising(L, e, A, B, C, a, b, c)
                          ELSE IF B <= e /\ e < C THEN Falling(L, e, A, B, C) * MeanFalling(L, e, A, B, C, a, b, c)
                          ELSE 0)])
    IN SumOver(T, g)

(* ---- intersections of isolines ------------------------------------------- *)
Det(A, a, B, b, C, c) == (A * b) - (B * a) - (A * c) + (C * a) + (B * c) - (C * b)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
(* point (p, q) / d modulo n                                                   *)
Class(p, q, d, n) == LET P == p % (d * n)  Q == q % (d * n)
                         g == Gcd(Gcd(P, Q), d)
                     IN <<P \div g, Q \div g, d \div g>>

(* Crossings of x = z and y = z: records of class, weight numerator and
   denominator (times n^2), one for each triangle with a unique solution.      *)
Crossing(x, y, f, z, t) ==
    LET n == Len(x)
        A == At(x, t[1])  B == At(x, t[2])  C == At(x, t[3])
        a == At(y, t[1])  b == At(y, t[2])  c == At(y, t[3])
        w0 == Det(A, a, B, b, C, c)
        w == Size(w0)
        s == IF w0 < 0 THEN -1 ELSE 1
        U == s * Det(z, z, B, b, C, c)
        V == s * Det(A, a, z, z, C, c)
        W == s * Det(A, a, B, b, z, z)
    IN IF w = 0 \/ U < 0 \/ V < 0 \/ W < 0 THEN <<>>
       ELSE << Class((U * t[1][1]) + (V * t[2][1]) + (W * t[3][1]),
                     (U * t[1][2]) + (V * t[2][2]) + (W * t[3][2]), w, n),
               (U * At(f, t[1])) + (V * At(f, t[2])) + (W * At(f, t[3])), w * w, t >>
Crossings(x, y, f, z) == {Crossing(x, y, f, z, t) : t \in Triangles(Len(x))} \ {<<>>}
Places(X) == {c[1] : c \in X}
(* mean weight of the triangles that share a crossing, in units of 1/unit      *)
Weight(X, p, unit) == LET S == {c \in X : c[1] = p}
                          g == TLCEval([c \in S |-> (unit * c[2]) \div c[3]])
                      IN SumOver(S, g) \div Cardinality(S)

(* ---- isolines -------------------------------------------------------------- *)
(* n times the value of the linear function at (p, q) / d, times d             *)
Value(f, p, q, d) ==
    LET i == p \div d  j == q \div d
        u == p % d     v == q % d
    IN IF u + v <= d
       THEN ((d - (u + v)) * At(f, <<i, j>>)) + (u * At(f, <<i + 1, j>>)) + (v * At(f, <<i, j + 1>>))
       ELSE ((u + v - d) * At(f, <<i + 1, j + 1>>)) + ((d - v) * At(f, <<i + 1, j>>))
            + ((d - u) * At(f, <<i, j + 1>>))

Faces(p) == {p[1] - p[2], p[2] - p[1], (2 * p[1]) + p[2], -((2 * p[1]) + p[2]),
             p[1] + (2 * p[2]), -(p[1] + (2 * p[2]))}
Inside(p, n) == \A x \in Faces(p) : x < n
Within(p, n) == \A x \in Faces(p) : x <= n
Steps == << <<1, 0>>, <<0, 1>>, <<-1, 1>>, <<-1, 0>>, <<0, -1>>, <<1, -1>> >>
Interior(n) == {p \in (-n .. n) \X (-n .. n) : Inside(p, n)}
(* doubled corner next to an interior point, pulled back to the zone boundary  *)
Cut(p, d, n) == LET q == <<p[1] + d[1], p[2] + d[2]>>
                IN IF Within(q, n) THEN <<2 * q[1], 2 * q[2]>>
                   ELSE <<(2 * p[1]) + d[1], (2 * p[2]) + d[2]>>
ZoneTriangles(n) == {{<<2 * p[1], 2 * p[2]>>, Cut(p, Steps[i], n), Cut(p, Steps[(i % 6) + 1], n)} :
                        p \in Interior(n), i \in 1 .. 6}
(* triangles (as sets of doubled points) crossed by the isoline                 *)
Crossed(f, e) == {t \in ZoneTriangles(Len(f)) :
    /\ \E c \in t : Value(f, c[1], c[2], 2) < 2 * e
    /\ \E c \in t : Value(f, c[1], c[2], 2) > 2 * e}
===========================================================================
