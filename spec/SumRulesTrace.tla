--------------------------- MODULE SumRulesTrace ---------------------------
(* Judges corrections made by the real code.                                  *)
EXTENDS SumRules, Judge

ErrForces == "rigid translations still exert forces"
ErrTorques == "rigid rotations still exert forces"
ErrOffSite == "simple correction is not a change of on-site elements alone"
ErrSymmetric == "corrected force constants are not symmetric"
ErrLeast == "change of force constants is not the least possible"
ErrCertificate == "no combination of constraints explains the change"
ErrCharges == "charges are not shifted by their mean"
ErrCoupling == "couplings are not relieved in proportion to their size"
ErrZone == "zone-centre matrix does not annihilate translations"
ErrPeers == "processes disagree"
Units == 65536

(* elements in units of the given scale, masses multiplied back               *)
Full(D, rm) == [n \in 1 .. Len(D) |-> [k \in 1 .. Len(D[n]) |-> [x \in XYZ |->
    [l \in 1 .. Len(D[n]) |-> [y \in XYZ |-> D[n][k][x][l][y] * rm[k] * rm[l]]]]]]

Largest(rm) == IF Len(rm) = 1 THEN rm[1] * rm[1]
               ELSE LET s == SumTo(rm, Len(rm)) IN s * s

RealSpace(r) ==
    LET C == TLCEval(Full(r.before, r.rm))
        D == TLCEval(Full(r.after, r.rm))
        eps == r.tol * Largest(r.rm)
        some == eps * (1 + (Len(C) * Len(r.rm)))
    IN IF Len(r.after) # Len(r.before) THEN "lattice vectors changed"
       ELSE IF r.asr /\ ~ NoForces(D, some) THEN ErrForces
       ELSE IF r.rsr /\ ~ NoTorques(D, r.P, eps * (1 + (2 * Reach(r.P)))) THEN ErrTorques
       ELSE IF r.kind = "simple" /\ \E n \in 1 .. Len(C) : \E k, l \in 1 .. Len(r.rm) : \E x, y \in XYZ :
            Size(D[n][k][x][l][y] - Simple(C, r.zero)[n][k][x][l][y]) > some
       THEN ErrOffSite
       ELSE IF r.kind = "least" /\ ~ Symmetric(D, r.m, some) THEN ErrSymmetric
       ELSE IF r.kind = "least" /\ ~ Antisymmetric(r.B) THEN ErrCertificate
       ELSE IF r.kind = "least" /\ ~ Least(C, D, r.A, r.B, r.P, r.m, some + 2 + (4 * Reach(r.P)))
       THEN ErrLeast
       ELSE "ok"

(* corrections of reciprocal-space matrices [q][k][x][l][y][re/im] at several
   q, the first of which is zero: the same as in real space                    *)
Reciprocal(r) ==
    LET n == Len(r.rm)
        F(M, q, k, x, l, y, c) == M[q][k][x][l][y][c] * r.rm[k] * r.rm[l]
        Away(k, x, y) == Sum([l \in 1 .. n |-> F(r.before, 1, k, x, l, y, 1)])
        eps == r.tol * Largest(r.rm) * (2 + n)
    IN IF \E q \in 1 .. Len(r.before) : \E k, l \in 1 .. n : \E x, y \in XYZ : \E c \in 1 .. 2 :
            Size(F(r.after, q, k, x, l, y, c) - (F(r.before, q, k, x, l, y, c)
                - IF k = l /\ c = 1 THEN Away(k, x, y) ELSE 0)) > eps
       THEN IF \E k \in 1 .. n : \E x, y \in XYZ :
                Size(Sum([l \in 1 .. n |-> F(r.after, 1, k, x, l, y, 1)])) > eps
            THEN ErrForces ELSE ErrOffSite
       ELSE "ok"

(* zone-centre matrix D[i][j] times rm gives nothing                           *)
Zone(r) ==
    IF \E i \in 1 .. Len(r.D) : \E y \in XYZ :
        Size(Sum([l \in 1 .. Len(r.rm) |-> r.D[i][(3 * (l - 1)) + y] * r.rm[l]]))
            > r.tol * (1 + SumTo(r.rm, Len(r.rm)))
    THEN ErrZone ELSE "ok"

Charges(r) ==
    IF Len(r.after) # Len(r.before) THEN ErrCharges
    ELSE IF \E k \in 1 .. Len(r.before) : \E x, y \in XYZ :
        r.after[k][x][y] # Neutral(r.before)[k][x][y] THEN ErrCharges
    ELSE "ok"

(* observed couplings after in units of 1/scale                                *)
Relief(r) ==
    IF \E n \in 1 .. Len(r.before) : \E k \in 1 .. Len(r.before[n]) : \E x \in XYZ :
        \E j \in 1 .. Len(r.before[n][k][x]) :
            Size((r.rm[k] * r.after[n][k][x][j]) - Relieved(r.before, r.scale, n, k, x, j))
                > 2 + r.rm[k]
    THEN ErrCoupling ELSE "ok"

OfSumRules(r) ==
    IF r.exc # "" THEN r.exc
    ELSE CASE r.kind \in {"simple", "least"} -> RealSpace(r)
           [] r.kind = "reciprocal" -> Reciprocal(r)
           [] r.kind = "zone" -> Zone(r)
           [] r.kind = "charges" -> Charges(r)
           [] r.kind = "coupling" -> Relief(r)
===========================================================================
