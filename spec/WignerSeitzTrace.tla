--------------------------- MODULE WignerSeitzTrace ---------------------------
(* Conformance of bravais.wigner and bravais.short_range_model.               *)
EXTENDS WignerSeitz, Judge


(* The library searches sgn * (m + nr M) for M in -nsc .. nsc - 1; inputs with
   nearest images elsewhere (strongly anisotropic meshes) are out of scope.   *)
InRange(near, nr, sgn, nsc) ==
  \A x \in DOMAIN near : \A R \in near[x] : \A i \in 1 .. 3 :
    -nsc * nr[i] <= sgn * R[i] /\ sgn * R[i] < nsc * nr[i]

(* rows: lattice vectors; deg[n][i][j]; len2[n][i][j] *)
Verdict(r) ==
  IF r.exc # "" THEN "raised " \o r.exc
  ELSE LET n == Len(r.rows)
           w == r.nsc + 1
           Of(m) == {k \in 1 .. n : Mod3(r.rows[k], r.nr) = m}
           cls == TLCEval([m \in Mesh3(r.nr) |-> Of(m)])
           pairs == (1 .. Len(r.tau)) \X (1 .. Len(r.tau2))
           near == TLCEval([m \in Mesh3(r.nr), p \in pairs |->
                      Nearest(m, r.nr, Sub(r.tau2[p[2]], r.tau[p[1]]), r.at, w)])
       IN
  IF ~InRange(near, r.nr, r.sgn, r.nsc) THEN "ok"
  ELSE IF Cardinality(ToSet(r.rows)) # n THEN "repeated lattice vectors"
  ELSE IF \E m \in Mesh3(r.nr), p \in pairs :
            {r.rows[k] : k \in {k \in cls[m] : r.deg[k][p[1]][p[2]] # 0}} # near[m, p]
       THEN "not the nearest images"
  ELSE IF \E m \in Mesh3(r.nr), p \in pairs : \E k \in cls[m] :
            /\ r.deg[k][p[1]][p[2]] # 0
            /\ r.deg[k][p[1]][p[2]] # Cardinality(near[m, p])
       THEN "degeneracy is not the number of nearest images"
  ELSE IF \E k \in 1 .. n : \A p \in pairs : r.deg[k][p[1]][p[2]] = 0
       THEN "lattice vector without any element"
  ELSE IF \E k \in 1 .. n, p \in pairs : r.len2[k][p[1]][p[2]] #
            IF r.deg[k][p[1]][p[2]] = 0 THEN 0
            ELSE Norm(Add(Comb(r.rows[k], r.at), Sub(r.tau2[p[2]], r.tau[p[1]])))
       THEN "wrong length"
  ELSE "ok"

(* model: raw[x] = <<k, a, b, re, im>> nonzero elements of row k, a = i nc + x;
   mesh: list of <<i, j, m1, m2, m3, x, y, re, im>>, nonzero, multiples of all
   degeneracies; div: divided by degeneracy? *)
ModelVerdict(r) ==
  IF r.exc # "" THEN "raised " \o r.exc
  ELSE LET nc == r.nc
           near == TLCEval([m \in Mesh3(r.nr), p \in (1 .. Len(r.tau)) \X (1 .. Len(r.tau)) |->
                      Nearest(m, r.nr, Sub(r.tau[p[2]], r.tau[p[1]]), r.at, r.nsc + 1)])
           \* near is labelled by the class of R itself; mesh element is sgn R
           Cls(x) == Mod3(Scale(r.sgn, <<x[3], x[4], x[5]>>), r.nr)
           want == UNION {LET S == near[Cls(x), <<x[1] + 1, x[2] + 1>>]
                              d == IF r.div THEN Cardinality(S) ELSE 1
                          IN {<<R, (x[1] * nc) + x[6], (x[2] * nc) + x[7],
                                x[8] \div d, x[9] \div d>> : R \in S} : x \in ToSet(r.mesh)}
           got == {<<r.rows[y[1]], y[2], y[3], y[4], y[5]>> : y \in ToSet(r.raw)}
       IN
  IF ~InRange(near, r.nr, r.sgn, r.nsc) THEN "ok"
  ELSE IF Cardinality(ToSet(r.rows)) # Len(r.rows) THEN "repeated lattice vectors"
  ELSE IF r.div /\ \E x \in ToSet(r.mesh) :
      x[8] % Cardinality(near[Cls(x), <<x[1] + 1, x[2] + 1>>]) # 0 THEN "machinery: data not divisible"
  ELSE IF r.div /\ got # want THEN "wrong elements on Wigner-Seitz lattice"
  ELSE IF ~r.div /\ (\E y \in want : y \notin got) THEN "wrong undivided elements"
  ELSE "ok"
=============================================================================
