-------------------------- MODULE LongRangeTrace --------------------------
(* Judges long-range terms of the real code for given parameters.           *)
EXTENDS LongRange, Judge

ErrNotDynamical == "long-range dynamical matrix is not the sum over dipoles and quadrupoles"
ErrNotCoupling == "long-range coupling is not the sum over dipoles and quadrupoles"

OfValues(r) ==
    IF r.exc # "" THEN r.exc
    ELSE LET s == r.sys
             D == Dynamical(s, r.p)
             g == CouplingTo(s, r.p)
             F(i) == s.rm[((i - 1) \div 3) + 1]
             n == Size(s)
         IN IF Len(r.D) # n \/ Len(r.g) # n THEN "wrong size"
            ELSE IF \E i, j \in 1 .. n : ~ Near(r.D[i][j], D[i][j], F(i) * F(j))
            THEN ErrNotDynamical
            ELSE IF \E i \in 1 .. n : ~ Near(r.g[i], g[i], F(i)) THEN ErrNotCoupling
            ELSE "ok"
=============================================================================
