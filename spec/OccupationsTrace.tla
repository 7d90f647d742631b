-------------------------- MODULE OccupationsTrace --------------------------
(* Judges recorded tables of occupation functions and Fermi levels.           *)
EXTENDS Occupations, Judge

Shifted == {"double_fermi_dirac", "two_fermi_dirac"}
Sums == "fermi_dirac_matsubara"

(* error of Simpson's rule (grows with order)                                 *)
Rough(r) == IF r.name = "methfessel_paxton" THEN 200 + (1500 * r.par) ELSE 150
Across(r, i) == r.name = "two_fermi_dirac" /\ i \in -1 .. 1

Anchors(r) ==
    LET n == Top(r.f)
    IN IF r.name \in {"lorentz", Sums, "bose_einstein"} THEN TRUE
       ELSE /\ Close(At(r.f, n), 0, 40) /\ Close(At(r.f, -n), Unit, 40)
            /\ r.s # <<>> => \A i \in {n, n - 1, -n, 1 - n} : Close(At(r.s, i), 0, 400)

Special(r, i) ==
    CASE r.name = "fermi_dirac" -> FermiDirac(r.f, r.d, r.p, i)
      [] r.name = "gauss" -> Gauss(r.f, r.d, r.p, i)
      [] r.name = "marzari_vanderbilt" -> Cold(r.d, r.p, i)
      [] r.name = "methfessel_paxton" ->
            IF i \in -60 .. 60 THEN Paxton(r.par, r.d, r.r[2], i) ELSE Close(At(r.d, i), 0, 600)
      [] r.name = "lorentz" -> Lorentz(r.f, r.d, r.p, i)
      [] r.name = "double_fermi_dirac" -> /\ Double(r.f, r.r[1], r.par, i)
                                          /\ Double(r.d, r.r[2], r.par, i)
                                          /\ Double(r.p, r.r[3], r.par, i)
      [] r.name = "two_fermi_dirac" -> /\ Two(r.f, r.r[1], r.par, i)
                                       /\ Two(r.d, r.r[2], r.par, i)
                                       /\ Two(r.p, r.r[3], r.par, i)
      [] r.name = Sums -> /\ MatsubaraStep(r.f, r.r[1], r.par, i)
                          /\ MatsubaraDelta(r.d, r.r[2], r.par, i)
                          /\ MatsubaraPrime(r.p, r.r[3], i)
      [] r.name = "bose_einstein" -> i \in -3 .. 3 \/ Bose(r.f, r.r[1], i)
      [] OTHER -> FALSE

Table(r) ==
    LET I == Inner(r.f)
    IN IF ~ r.same THEN "argument modified"
       ELSE IF r.d # <<>> /\ r.name # Sums
            /\ \E i \in I : ~ Across(r, i) /\ ~ Integral(r.f, r.d, i, -1, Rough(r)) THEN "step function"
       ELSE IF r.p # <<>> /\ r.name # Sums
            /\ \E i \in I : ~ Across(r, i) /\ ~ Integral(r.d, r.p, i, 1, Rough(r)) THEN "delta function"
       ELSE IF r.s # <<>>
            /\ \E i \in I : ~ Across(r, i) /\ ~ Moment(r.s, r.d, i, Rough(r)) THEN "entropy"
       ELSE IF r.s # <<>> /\ \E i \in -1 .. 1 : ~ Close(At(r.s, i), At(r.s, 0), 4096) THEN "entropy jumps"
       ELSE IF ~ Anchors(r) THEN "limits"
       ELSE IF \E i \in Points(r.f) : ~ Special(r, i) THEN "defining relation"
       ELSE IF \E t \in {"f", "d", "p", "s"} : LET T == r[t] W == r.whole[t] IN
            W # <<>> /\ \E j \in Points(W) : (r.name = "bose_einstein" => j # 0)
                /\ ~ Close(At(W, j), At(T, Step * j), 2) THEN "integer arguments"
       ELSE "ok"

Far(r) ==
    IF \E k \in 1 .. Len(r.x) : ~ Close(r.f[k], IF r.x[k] > 0 THEN 0 ELSE r.below, 8)
    THEN "occupation far from the Fermi level"
    ELSE IF \E T \in {r.d, r.p, r.s} : T # <<>> /\ \E k \in 1 .. Len(r.x) : ~ Close(T[k], 0, 8)
    THEN "tails" ELSE "ok"

Sharp(r) ==
    IF \E k \in 1 .. Len(r.x) : LET x == r.x[k] IN
        \/ r.f[k] # (IF x > 0 THEN 0 ELSE IF x < 0 THEN 2 ELSE 1)
        \/ r.dinf[k] # (x = 0) \/ (x # 0 /\ (r.d[k] # 0 \/ r.p[k] # 0)) \/ r.s[k] # 0
    THEN "Heaviside function" ELSE "ok"

Named(r) == IF r.own THEN IF r.result = "same" THEN "ok" ELSE "function replaced"
            ELSE IF r.result \in DOMAIN Names /\ r.text \in Names[r.result] THEN "ok" ELSE "name of smearing"

(* r.n quarters of an electron per cell for r.k points, two per state          *)
Level(r) ==
    IF ~ r.same THEN "energies modified"
    ELSE IF r.f = "linear"
    THEN LET F == Filled(r.e, r.kT, r.mu, r.q, Len(r.e))
             K == r.n * r.k * r.kT * r.q
         IN IF Abs((4 * F) - K) <= (4 * Len(r.e)) + 1 + (((r.k * r.kT * r.q * 4) \div r.tol) + 1)
            THEN "ok" ELSE "number of electrons"
    ELSE IF Abs((8 * Total(r.v, Len(r.v))) - (r.n * r.k * Unit))
            <= (8 * Len(r.v)) + ((r.k * Unit * 4) \div r.tol)
         THEN "ok" ELSE "number of electrons"

OfOccupations(r) ==
    IF r.exc # "" THEN r.exc
    ELSE CASE r.kind = "table" -> Table(r)
           [] r.kind = "far" -> Far(r)
           [] r.kind = "sharp" -> Sharp(r)
           [] r.kind = "named" -> Named(r)
           [] r.kind = "level" -> Level(r)
===========================================================================
