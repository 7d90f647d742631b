---------------------------- MODULE Occupations ----------------------------
(* Step functions, their derivatives and entropies; number of electrons.
   Functions are tables over x = i / Step, i = -N .. N, of fixed-point numbers
   (multiples of 1 / Unit), stored as sequences with index N + 1 + i.          *)
EXTENDS FixedPoint

Step == 16
Unit == 1048576                       \* 2^20
Root2 == 1482910                      \* square root of two

Mul(a, b) == MulDiv(a, b, Unit)
Close(a, b, tol) == Abs(a - b) <= tol

Top(T) == (Len(T) - 1) \div 2
At(T, i) == T[Top(T) + 1 + i]
Points(T) == -Top(T) .. Top(T)
Inner(T) == 1 - Top(T) .. Top(T) - 1

(* F(i + 1) - F(i - 1) is the integral of G in between (Simpson's rule)        *)
Integral(F, G, i, sign, tol) ==
    Close(3 * Step * (At(F, i + 1) - At(F, i - 1)),
        sign * (At(G, i - 1) + (4 * At(G, i)) + At(G, i + 1)), tol)

(* the entropy changes by -x delta                                            *)
Moment(S, G, i, tol) ==
    Close(3 * Step * (At(S, i + 1) - At(S, i - 1)),
        - ((((i - 1) * At(G, i - 1)) + (4 * i * At(G, i)) + ((i + 1) * At(G, i + 1))) \div Step), tol)

(* t = x^2 in fixed-point arithmetic                                          *)
Square(i) == i * i * (Unit \div (Step * Step))

RECURSIVE Laguerre(_, _)
(* associated Laguerre polynomials L_n^(1/2)(t)                               *)
Laguerre(n, t) ==
    IF n = 0 THEN Unit
    ELSE IF n = 1 THEN (3 * (Unit \div 2)) - t
    ELSE LET a == TLCEval(Laguerre(n - 1, t))
             b == TLCEval(Laguerre(n - 2, t))
         IN (MulDiv(((4 * n - 1) * (Unit \div 2)) - t, a, n * Unit)) - MulDiv((2 * n - 1), b, 2 * n)

(* clauses of single functions: f step, d delta, p delta', at index i; r is the
   reference (Fermi-Dirac or Gauss) with a larger range where needed           *)
FermiDirac(f, d, p, i) ==
    /\ Close(At(d, i), Mul(At(f, i), Unit - At(f, i)), 4)
    /\ Close(At(p, i), - Mul(At(d, i), Unit - (2 * At(f, i))), 6)
    /\ i = 0 => Close(At(f, i), Unit \div 2, 1)
Gauss(f, d, p, i) ==
    /\ Close(At(p, i), - ((2 * i * At(d, i)) \div Step), 40)
    /\ Close(At(f, i) + At(f, -i), Unit, 2)
(* (x + sqrt 2) delta' = -(1 + 3 sqrt 2 x + 2 x^2) delta                       *)
Cold(d, p, i) ==
    Close(Mul(((i * Unit) \div Step) + Root2, At(p, i)),
        - Mul(Unit + ((3 * i * Root2) \div Step) + (2 * Square(i)), At(d, i)), 200)
Paxton(n, d, g, i) == Close(At(d, i), Mul(Laguerre(n, Square(i)), At(g, i)), 400)
Lorentz(f, d, p, i) ==
    /\ Close(Mul(At(d, i), Square(i) + 10349019), Unit, 200)     \* pi^2
    /\ Close(At(p, i), - Mul((2 * i * At(d, i)) \div Step, At(d, i)), 10)
    /\ Close(At(f, i) + At(f, -i), Unit, 2)
Bose(b, f, i) == Close(Mul(At(b, i), Unit - (2 * At(f, i))), At(f, i), 40)

(* T is the table shifted by s steps either way, on average                   *)
Double(T, R, s, i) == Close(2 * At(T, i), At(R, i - s) + At(R, i + s), 4)
Two(T, R, s, i) == Close(At(T, i), At(R, IF i < 0 THEN i + s ELSE i - s), 2)

(* truncated Matsubara sums miss at most x / (2 pi^2 n) and 1 / (2 pi^2 n)     *)
Missing(i, n) == ((Abs(i) * (Unit \div Step)) \div (19 * n)) + 4
MatsubaraStep(T, R, n, i) ==
    LET e == At(T, i) - At(R, i)
    IN IF i < 0 THEN e <= 4 /\ e >= - Missing(i, n) ELSE e >= -4 /\ e <= Missing(i, n)
MatsubaraDelta(T, R, n, i) ==
    LET e == At(R, i) - At(T, i) IN e >= -4 /\ e <= (Unit \div (19 * n)) + 4
MatsubaraPrime(T, R, i) == Close(At(T, i), At(R, i), 8)

(* names and what they stand for                                              *)
Names == [gauss |-> {"gaussian", "gauss"},
    methfessel_paxton |-> {"methfessel-paxton", "m-p", "mp"},
    marzari_vanderbilt |-> {"marzari-vanderbilt", "cold", "m-v", "mv"},
    fermi_dirac |-> {"fermi-dirac", "f-d", "fd"},
    lorentz |-> {"lorentzian", "lorentz"},
    heaviside |-> {"heaviside"}]

(* number of states below mu for the linear step 1/2 - x / 2 in -1 .. 1;
   energies and kT are integers, mu is given in units of 1 / 2^q               *)
RECURSIVE Filled(_, _, _, _, _)
Filled(e, kT, mu, q, k) ==
    IF k = 0 THEN 0
    ELSE LET x == (e[k] * q) - mu
             w == kT * q
         IN Filled(e, kT, mu, q, k - 1)
            + IF x >= w THEN 0 ELSE IF x <= -w THEN 2 * w ELSE w - x
RECURSIVE Total(_, _)
Total(v, k) == IF k = 0 THEN 0 ELSE v[k] + Total(v, k - 1)
=============================================================================
