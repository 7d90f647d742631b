------------------------- MODULE OccupationsDesign -------------------------
(* Methfessel-Paxton terms integrate polynomials exactly; the chemical potential
   raised step by step fills the levels one after another.                     *)
EXTENDS Occupations

CONSTANTS Bands, High

(* scaled by n! 4^n: coefficients of H_2n, and sum of (-1)^n H_2n / (n! 4^n)   *)
RECURSIVE Fac(_), Hermite(_, _), Odd(_)
Fac(n) == IF n = 0 THEN 1 ELSE n * Fac(n - 1)
Hermite(n, x) == IF n = 0 THEN 1 ELSE IF n = 1 THEN 2 * x
    ELSE (2 * x * Hermite(n - 1, x)) - (2 * (n - 1) * Hermite(n - 2, x))
Odd(n) == IF n <= 0 THEN 1 ELSE (2 * n - 1) * Odd(n - 1)
RECURSIVE Paxtons(_, _, _)
Paxtons(N, x, n) == IF n < 0 THEN 0
    ELSE Paxtons(N, x, n - 1) + (IF n % 2 = 0 THEN 1 ELSE -1) * Hermite(2 * n, x)
        * ((Fac(N) * 4 ^ N) \div (Fac(n) * 4 ^ n))
(* the sum over Hermite polynomials is the Laguerre polynomial                 *)
ASSUME \A N \in 0 .. 3 : \A x \in -3 .. 3 :
    Close(Laguerre(N, x * x * Unit), MulDiv(Paxtons(N, x, N), Unit, Fac(N) * 4 ^ N), 64)

(* coefficients of L_N^(1/2) times 2^N N!, moments of Gaussians times 2^k      *)
RECURSIVE Binom(_, _, _)
Binom(N, k, j) == IF j = N - k THEN 1 ELSE (2 * (N - j) + 1) * Binom(N, k, j + 1)
(* (N + 1/2) ... (k + 3/2) / ((N - k)! k!) (-1)^k in units of 1 / (2^(N - k))   *)
Coefficient(N, k) == (IF k % 2 = 0 THEN 1 ELSE -1) * Binom(N, k, 0) * (Fac(N) \div (Fac(N - k) * Fac(k)))
RECURSIVE Summed(_, _, _)
Summed(N, m, k) == IF k < 0 THEN 0
    ELSE Summed(N, m, k - 1) + Coefficient(N, k) * Odd(m + k)
(* moments of order 2 m vanish for m = 1 .. N; the weight is one               *)
ASSUME \A N \in 1 .. 4 : \A m \in 1 .. N : Summed(N, m, N) = 0
ASSUME \A N \in 0 .. 4 : Summed(N, N + 1, N) # 0
ASSUME \A N \in 0 .. 4 : Summed(N, 0, N) = Fac(N) * 2 ^ N

VARIABLES e, kT, mu
vars == <<e, kT, mu>>
Init == /\ e \in [1 .. Bands -> 0 .. High] /\ kT \in 1 .. 2 /\ mu = - kT - 1
Next == mu <= High + kT /\ mu' = mu + 1 /\ UNCHANGED <<e, kT>>
Spec == Init /\ [][Next]_vars
N(m) == Filled(e, kT, m, 1, Bands)
Monotone == N(mu + 1) >= N(mu)
Bounded == N(mu) >= 0 /\ N(mu) <= 2 * kT * Bands
Ends == /\ (mu < - kT => N(mu) = 0)
        /\ (mu > High + kT => N(mu) = 2 * kT * Bands)
(* particles and holes                                                        *)
Mirror == Filled([k \in 1 .. Bands |-> - e[k]], kT, - mu, 1, Bands) = (2 * kT * Bands) - N(mu)
=============================================================================
