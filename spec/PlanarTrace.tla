------------------------------ MODULE PlanarTrace ------------------------------
(* Conformance of bravais.to_Voronoi, wigner_2d, squared_distance and
   Fourier_interpolation.                                                     *)
EXTENDS Planar, Model, Judge

P2(x) == <<x[1], x[2]>>
OfVoronoi(r) ==
  IF {P2(x) : x \in ToSet(r.got)} # Folded(r.angle, P2(r.k), P2(r.d), r.nk, r.s)
  THEN "not the equivalent points of minimal length" ELSE "ok"
OfDistance(r) == IF 2 * r.got # Length2(r.angle, P2(r.k)) THEN "not the metric of the lattice" ELSE "ok"
(* got: <<k1, k2, degeneracy, length^2>>; s: denominator of the offset only *)
OfWigner(r) ==
  LET all == [m \in Mesh(r.nk) |-> Folded(r.angle, <<m[1] * r.s, m[2] * r.s>>, P2(r.d), r.nk, r.s)]
      want == UNION {{<<p[1] \div r.s, p[2] \div r.s, Cardinality(all[m])>> : p \in all[m]} : m \in Mesh(r.nk)}
      n == Len(r.got)
  IN IF {<<r.got[i][1], r.got[i][2], r.got[i][3]>> : i \in 1 .. n} # want \/ Cardinality(want) # n
     THEN "not the Wigner-Seitz list"
     ELSE IF \E i \in 1 .. n : 2 * r.got[i][4] # Length2(r.angle, P2(r.got[i])) THEN "wrong length"
     ELSE "ok"
(* coef: <<n, m, re, im>> times scale; data: row-major integers; values: list of
   <<x, y, value>> at quarter points x / 4 (times scale) *)
OfFourier(r) ==
  LET E == {<<<<x[1], x[2], 0>>, 0, 0, x[3], x[4]>> : x \in ToSet(r.coef)}
      f == 4 \div r.nk
      D(k) == r.data[((k[1] % r.nk) * r.nk) + (k[2] % r.nk) + 1]
      \* interpolant: sum coef exp(-sign 2 pi i n.k / N)
      V(x, y) == Fourier(E, <<(-r.sign) * x, (-r.sign) * y, 0>>, 0, 0)
      Cls(e) == Fold(e[1], r.nk)
  IN IF \E k \in Mesh(r.nk) : V(k[1] * f, k[2] * f) # <<D(k), 0>> THEN "coefficients do not reproduce the data"
     ELSE IF \E m \in {Cls(e) : e \in E} :
        LET S == {e \in E : Cls(e) = m} IN
        {P2(e[1]) : e \in S} # Folded(180 - r.angle, m, <<0, 0>>, r.nk, 1)
        \/ Cardinality({<<e[4], e[5]>> : e \in S}) # 1 \/ Cardinality(S) # Len(SelectSeq(r.coef, LAMBDA x : Fold(P2(x), r.nk) = m))
     THEN "coefficients not on the nearest images"
     ELSE IF \E x \in ToSet(r.values) : x[3] # V((x[1] * f) \div 4, (x[2] * f) \div 4)[1]
     THEN "wrong interpolated value"
     ELSE "ok"
Verdict(r) ==
  IF r.exc # "" THEN "raised " \o r.exc
  ELSE CASE r.kind = "voronoi" -> OfVoronoi(r)
         [] r.kind = "distance" -> OfDistance(r)
         [] r.kind = "wigner" -> OfWigner(r)
         [] r.kind = "fourier" -> OfFourier(r)
=============================================================================
