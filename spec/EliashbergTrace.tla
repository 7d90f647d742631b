--------------------------- MODULE EliashbergTrace ---------------------------
(* Judges recorded parameters of McMillan's formula.                          *)
EXTENDS Eliashberg, Judge

Near(a, b, tol) == Abs(a - b) <= tol

Formula(lam, mu, log) ==
    LET e == Exponent(lam, mu)
    IN IF e > 600 * One THEN log < -500 * One
       ELSE Near(log, LogTc(lam, mu), 40 + (e \div (IF Divisor(lam, mu) <= 66 THEN 50
            ELSE 1 + (Divisor(lam, mu) \div 8))))

(* ratio: corrected over uncorrected temperature                               *)
Corrected(lam, mu, shaped, w, ratio) ==
    LET r == IF shaped THEN MulDiv(ratio, One, Shape(lam, mu, w)) ELSE ratio
        c == Cube(r) - One
    IN c >= -20 /\ Near(MulDiv(c, c, One), Cube(MulDiv(lam, One, L1(mu))), 150 + (MulDiv(c, c, One) \div 500))

Temperature(r) ==
    IF ~ Formula(r.lam, r.mu, r.log) THEN "critical temperature"
    ELSE IF r.correct /\ ~ Corrected(r.lam, r.mu, r.shaped, r.w, r.ratio) THEN "strong coupling or shape"
    ELSE "ok"

(* lambda is r.m / 2^r.s                                                        *)
Parameters(r) ==
    LET C == TLCEval(Couplings(r))
        V == Strength(r, C)
        D == Normal(r)
        a == MulDiv(r.m, D * 2 ^ Largest, 2 ^ r.s)
        b == MulDiv(V, Density(r), DensityUnit(r))
        rough == IF r.tetra THEN 100 ELSE 20000
    IN IF ~ Representative(r.q, r.nq) THEN "irreducible points"
       ELSE IF D = 0 \/ V = 0 THEN "ok"
       ELSE IF r.empty THEN "no result"
       ELSE IF ~ Near(a, b, 4 + (D \div 100000) + (b \div rough)) THEN "coupling strength"
       ELSE IF ~ Near(r.logw, MulDiv(Logarithm(r, C), One \div 2, V), IF r.tetra THEN 700 ELSE 6)
       THEN "logarithmic average"
       ELSE IF r.correct /\ ~ Near(r.second, MulDiv(Flatly(r, C), One, V),
            2 + (r.second \div (IF r.tetra THEN 100 ELSE 10000))) THEN "second moment"
       ELSE IF ~ Formula(r.lam, r.mu, r.log) THEN "critical temperature"
       ELSE IF r.correct /\ r.lam < 5 * One /\ ~ Corrected(r.lam, r.mu, TRUE, r.w, r.ratio)
       THEN "strong coupling or shape"
       ELSE "ok"

OfEliashberg(r) ==
    IF r.exc # "" THEN r.exc
    ELSE CASE r.kind = "temperature" -> Temperature(r)
           [] r.kind = "parameters" -> Parameters(r)
===========================================================================
