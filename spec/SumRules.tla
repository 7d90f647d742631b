----------------------------- MODULE SumRules -----------------------------
(* Sum rules of lattice models and their corrections.

   Force constants are functions C[n][k][x][l][y]: lattice vector n, atom k in
   direction x at the origin, atom l in direction y at lattice vector n.  Born
   charges are Z[k][x][y], couplings d[n][k][x][j] (displaced atom k at lattice
   vector n, direction x, pair j of orbitals).  Values are integers in units of
   1/Scale wherever a correction divides.                                    *)
EXTENDS Integers, Sequences

XYZ == 1 .. 3

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sum(f) == SumTo(f, Len(f))
Size(x) == IF x < 0 THEN -x ELSE x

(* ---- force constants ---------------------------------------------------- *)

Translation(C, k, x, y) ==
    Sum([n \in 1 .. Len(C) |-> Sum([l \in 1 .. Len(C[n][k][x]) |-> C[n][k][x][l][y]])])

(* P[n][l]: position of atom l at lattice vector n                            *)
Torque(C, P, k, x1, x2, y) ==
    Sum([n \in 1 .. Len(C) |-> Sum([l \in 1 .. Len(C[n][k][x1]) |->
        (C[n][k][x1][l][y] * P[n][l][x2]) - (C[n][k][x2][l][y] * P[n][l][x1])])])

(* a bound on what roundings of the elements amount to in these sums          *)
Reach(P) == Sum([n \in 1 .. Len(P) |-> Sum([l \in 1 .. Len(P[n]) |->
    Size(P[n][l][1]) + Size(P[n][l][2]) + Size(P[n][l][3])])])

NoForces(C, tol) == \A k \in 1 .. Len(C[1]) : \A x, y \in XYZ :
    Size(Translation(C, k, x, y)) <= tol
NoTorques(C, P, tol) == \A k \in 1 .. Len(C[1]) : \A x1, x2, y \in XYZ :
    Size(Torque(C, P, k, x1, x2, y)) <= tol

(* m[n]: where the inverse of lattice vector n is listed                      *)
Symmetric(C, m, tol) == \A n \in 1 .. Len(C) : \A k, l \in 1 .. Len(C[n]) : \A x, y \in XYZ :
    Size(C[n][k][x][l][y] - C[m[n]][l][y][k][x]) <= tol

OnSite(n, zero, k, l) == n = zero /\ k = l

(* Simple correction: only on-site elements change, such that forces vanish.  *)
Simple(C, zero) ==
    [n \in 1 .. Len(C) |-> [k \in 1 .. Len(C[n]) |-> [x \in XYZ |->
        [l \in 1 .. Len(C[n][k][x]) |-> [y \in XYZ |->
            C[n][k][x][l][y] - IF OnSite(n, zero, k, l)
                THEN Translation(C, k, x, y) ELSE 0]]]]]

(* Least change of symmetric force constants: what is taken away is a
   symmetrised combination of the constraints (A: forces, B: torques).        *)
Part(A, B, P, n, k, x, l, y) ==
    A[k][x][y] + (IF B = <<>> THEN 0 ELSE
        (B[k][x][1][y] * P[n][l][1]) + (B[k][x][2][y] * P[n][l][2]) + (B[k][x][3][y] * P[n][l][3]))
Combination(A, B, P, m, n, k, x, l, y) ==
    Part(A, B, P, n, k, x, l, y) + Part(A, B, P, m[n], l, y, k, x)
Antisymmetric(B) == B = <<>> \/ \A k \in 1 .. Len(B) : \A x1, x2, y \in XYZ :
    B[k][x1][x2][y] = - B[k][x2][x1][y]
Least(C, D, A, B, P, m, tol) == \A n \in 1 .. Len(C) : \A k, l \in 1 .. Len(C[n]) : \A x, y \in XYZ :
    Size(C[n][k][x][l][y] - D[n][k][x][l][y] - Combination(A, B, P, m, n, k, x, l, y)) <= tol

(* ---- charges ------------------------------------------------------------- *)

(* times the number of atoms                                                  *)
Neutral(Z) == [k \in 1 .. Len(Z) |-> [x \in XYZ |-> [y \in XYZ |->
    (Len(Z) * Z[k][x][y]) - Sum([l \in 1 .. Len(Z) |-> Z[l][x][y]])]]]

(* ---- couplings ----------------------------------------------------------- *)

Push(d, x, j) == Sum([n \in 1 .. Len(d) |-> Sum([k \in 1 .. Len(d[n]) |-> d[n][k][x][j]])])
Weight(d, x, j) == Sum([n \in 1 .. Len(d) |-> Sum([k \in 1 .. Len(d[n]) |-> Size(d[n][k][x][j])])])
(* couplings are taken away in proportion to their size                       *)
Relieved(d, s, n, k, x, j) ==
    IF d[n][k][x][j] = 0 THEN 0
    ELSE (s * d[n][k][x][j]) - ((s * Size(d[n][k][x][j]) * Push(d, x, j)) \div Weight(d, x, j))
===========================================================================
