----------------------------- MODULE CouplingTrace -----------------------------
(* Conformance of histories of elph.Model.  rg, rk: listed lattice vectors;
   raw: [g, x, k, a, b, re, im] with numbers g, k of the rows.                *)
EXTENDS Coupling, HistoryJudge

ToSet(s) == {s[i] : i \in 1 .. Len(s)}

Observed(o) ==
  IF Distinct(o.rg) /\ Distinct(o.rk)
  THEN {<<o.rg[x[1]], x[2], o.rk[x[3]], x[4], x[5], x[6], x[7]>> : x \in ToSet(o.raw)}
  ELSE CMerge({<<o.rg[x[1]], x[2], o.rk[x[3]], x[4], x[5], x[6], x[7],
                 <<x[1], x[3]>>>> : x \in ToSet(o.raw)})

(* Acoustic sum rule for data with equal moduli within each group of elements
   that belong to the same direction, electronic vector and orbitals: the
   relative change is constant, hence every element changes by the mean. *)
SumRule(c) ==
  LET grp(e) == {x \in c : x[2] % 3 = e[2] % 3 /\ x[3] = e[3] /\ x[4] = e[4] /\ x[5] = e[5]}
  IN {y \in {LET S == grp(e)
                 t == SumC(S)
                 n == Cardinality(S)
             IN <<e[1], e[2], e[3], e[4], e[5], e[6] - (t[1] \div n), e[7] - (t[2] \div n)>> : e \in c} :
        y[6] # 0 \/ y[7] # 0}

Start(o) == [c |-> Observed(o), nph |-> o.nph, nel |-> o.nel,
             flags |-> o.flags, std |-> FALSE, bad |-> ""]

Step(s, e) ==
  IF e.exc # "" THEN [s EXCEPT !.bad = "raised " \o e.exc] ELSE
  CASE e.op = "super" ->
         IF ~Represent(e.cells, e.M)
         THEN [s EXCEPT !.bad = "cells do not represent each class once"]
         ELSE [s EXCEPT !.c = CSuper(@, s.nph, s.nel, e.M, e.cells),
                        !.nph = @ * Len(e.cells), !.nel = @ * Len(e.cells),
                        !.std = FALSE]
    [] e.op = "std" -> [s EXCEPT !.c = IF e.q = 0 THEN @ ELSE CThreshold(@, e.p, e.q),
                                 !.std = TRUE]
    [] e.op = "sym" -> [s EXCEPT !.c = CSymmetrized(IF e.q = 0 THEN @
                                         ELSE CThreshold(@, e.p, e.q)), !.std = TRUE]
    [] e.op = "rebuild" -> \* what it yields is judged elsewhere (MeshTrace)
         [s EXCEPT !.c = Observed(e), !.std = FALSE]
    [] e.op = "asr" -> [s EXCEPT !.c = SumRule(@), !.std = FALSE]
    [] e.op = "clear" -> [s EXCEPT !.c = {}]
    [] OTHER -> s

Gamma(c, nph, nel, M, cells) ==
  {<<x[2], x[4], x[5], x[6]>> : x \in {y \in
    CMerge({<<Zero3, e[2], Zero3, e[4], e[5], e[6], 0, <<e[1], e[3]>>>> :
              e \in CSuper(c, nph, nel, M, cells)}) : y[6] # 0}}

(* q, k in units of pi/2; the mesh index of k + q selects the bands *)
Step4(e) == [j \in 1 .. 3 |-> IF j <= Len(e.nk) THEN 4 \div e.nk[j] ELSE 4]
Mesh(e) == {n \in [1 .. 3 -> 0 .. 3] : \A j \in 1 .. 3 :
              n[j] < (IF j <= Len(e.nk) THEN e.nk[j] ELSE 1)}
Number(n, e) == LET N(j) == IF j <= Len(e.nk) THEN e.nk[j] ELSE 1
                IN (((n[1] * N(2)) + n[2]) * N(3)) + n[3] + 1
Plus(n, q, e) == [j \in 1 .. 3 |-> IF j <= Len(e.nk)
                   THEN (n[j] + (q[j] \div Step4(e)[j])) % e.nk[j] ELSE 0]
Bare(c, q, k) == {<<<<x[2], x[4], x[5]>>, <<x[6], x[7]>>>> : x \in CFourier(c, q, k)}

SampleAt(c, e, i, n) ==
  LET q == e.qs[i]
      k == [j \in 1 .. 3 |-> IF j <= Len(e.nk) THEN n[j] * Step4(e)[j] ELSE 0]
      g0 == Bare(c, q, k)
      g1 == IF e.U = <<>> THEN g0
            ELSE ToBands(g0, e.U[Number(Plus(n, q, e), e)], e.U[Number(n, e)])
      g2 == IF e.u = <<>> THEN g1 ELSE ToModes(g1, e.u[i])
  IN IF e.sq THEN Squares(g2) ELSE g2
Sampled(c, e) ==
  UNION {{<<i - 1, x[1][1]>> \o SubSeq(n, 1, Len(e.nk)) \o
            <<x[1][2], x[1][3], x[2][1], x[2][2]>> : x \in SampleAt(c, e, i, n)} :
         i \in 1 .. Len(e.qs), n \in Mesh(e)}

Agree(s, e) ==
  IF s.bad # "" THEN s.bad
  ELSE IF e.op = "sparse" THEN
    IF ~Represent(e.cells, e.M) THEN "cells do not represent each class once"
    ELSE IF ToSet(e.gamma) # Gamma(s.c, s.nph, s.nel, e.M, e.cells)
      THEN "sparse supercell coupling is not the summed dense one"
    ELSE "ok"
  ELSE IF e.op = "eval" THEN
    IF {<<x[2], x[4], x[5], x[6], x[7]>> : x \in CFourier(s.c, e.q4, e.k4)} # ToSet(e.gamma)
      THEN "wrong coupling at q, k" ELSE "ok"
  ELSE IF e.op = "fresh" THEN \* nonzero differences from a newly built model
    IF e.gamma # <<>> THEN "differs from evaluation of a fresh model" ELSE "ok"
  ELSE IF e.op = "sample" THEN
    IF Sampled(s.c, e) # ToSet(e.gamma)
      THEN "wrong sampled coupling" ELSE "ok"
  ELSE IF e.op = "bands" THEN
    IF ~ /\ Diagonalises(e.Ukq, e.Ekq, e.s, ToSet(e.Hkq))
         /\ Diagonalises(e.Uk, e.Ek, e.s, ToSet(e.Hk))
         /\ Diagonalises(e.uq, e.wq, 1, ToSet(e.Dq))
      THEN "invalid eigenvectors"
    ELSE LET g == Bare(s.c, e.q4, e.k4)
             g1 == IF e.elbnd THEN ToBands(g, e.Ukq, e.Uk) ELSE g
             g2 == IF e.phbnd THEN ToModes(g1, e.uq) ELSE g1
         IN IF {<<x[1][1], x[1][2], x[1][3], x[2][1]>> : x \in Squares(g2)}
               # ToSet(e.gamma) THEN "wrong coupling in band basis" ELSE "ok"
  ELSE IF e.op = "get" THEN
    IF {<<x[2], x[4], x[5], x[6], x[7]>> : x \in {y \in s.c : y[1] = e.q4 /\ y[3] = e.k4}}
       # ToSet(e.gamma) THEN "wrong real-space element" ELSE "ok"
  ELSE IF e.nph # s.nph \/ e.nel # s.nel THEN "wrong number of displacements or orbitals"
  ELSE IF e.op # "start" /\ (~Distinct(e.rg) \/ ~Distinct(e.rk)) THEN "repeated lattice vectors"
  ELSE IF e.op \in {"std", "sym"} /\ (~Sorted(e.rg) \/ ~Sorted(e.rk)) THEN "lattice vectors not sorted"
  ELSE IF e.op \in {"std", "sym"} /\
          (\/ \E i \in 1 .. Len(e.rg) : e.rg[i] # Zero3 /\ \A x \in ToSet(e.raw) : x[1] # i
           \/ \E i \in 1 .. Len(e.rk) : e.rk[i] # Zero3 /\ \A x \in ToSet(e.raw) : x[3] # i)
       THEN "vanishing lattice vector kept"
  ELSE IF Observed(e) # s.c THEN "wrong coupling elements"
  ELSE IF e.flags # s.flags THEN "unit settings lost"
  ELSE "ok"
=============================================================================
