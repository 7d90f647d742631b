----------------------------- MODULE CrystalTrace -----------------------------
(* Conformance of bravais.primitives, reciprocals, volume, rotate, translations,
   crystal_to_cartesian, cartesian_to_crystal, BZ.                            *)
EXTENDS Crystal, Judge

Dot(u, v) == FoldSet(LAMBDA i, acc : acc + (u[i] * v[i]), 0, DOMAIN u)
Cross2(u, v) == (u[1] * v[2]) - (u[2] * v[1])

OfPrimitives(r) ==
  LET i == r.ibrav  e == Edges(i, r.e)  x == Cosines(i, r.x) IN
  IF ~ Proper(i, r.e, r.x) THEN "machinery: no lattice"
  ELSE IF r.gram # Gram(i, r.e, r.x) THEN "wrong metric"
  ELSE IF r.hand # Sgn(Det3(Centring(i))) THEN "wrong handedness"
  ELSE IF i \in Orthogonal THEN
    (IF \E m, n \in I3 : r.twice[m][n] # Centring(i)[m][n] * e[n] THEN "wrong orientation" ELSE "ok")
  ELSE IF \E m, n \in I3 : Signs(i, x)[m][n] # 2 /\ r.signs[m][n] # Signs(i, x)[m][n]
  THEN "wrong orientation"
  ELSE IF i = -5 /\ ~ r.diagonal THEN "wrong orientation" ELSE "ok"

OfFree(r) == IF r.got = r.cell THEN "ok" ELSE "wrong cell"

(* b times determinant *)
OfReciprocals(r) ==
  LET n == Len(r.a) IN
  IF \E i, j \in 1 .. n : Dot(r.a[i], r.got[j]) # (IF i = j THEN r.det ELSE 0)
  THEN "not dual" ELSE "ok"
OfVolume(r) ==
  LET d == IF Len(r.a) = 1 THEN r.a[1][1] ELSE IF Len(r.a) = 2 THEN Cross2(r.a[1], r.a[2]) ELSE Det3(r.a)
  IN IF r.got = (IF d < 0 THEN -d ELSE d) THEN "ok" ELSE "wrong volume"

(* angle given by (c, s) / h; got times h *)
OfRotate(r) ==
  IF r.got = <<(r.c * r.v[1]) - (r.s * r.v[2]), (r.s * r.v[1]) + (r.c * r.v[2])>>
            \o (IF Len(r.v) = 3 THEN <<r.h * r.v[3]>> ELSE <<>>) THEN "ok" ELSE "wrong rotation"
OfTranslations(r) ==
  IF r.a1 # <<r.c, r.s>> \o (IF r.planar THEN <<>> ELSE <<0>>) THEN "wrong first vector"
  ELSE IF r.cos # (IF r.angle = 60 THEN 1 ELSE IF r.angle = 90 THEN 0 ELSE -1) \/ r.norm # 1 \/ r.turn # 1
  THEN "wrong angle" ELSE "ok"
OfCartesian(r) ==
  IF \E p \in DOMAIN r.crystal : \E x \in DOMAIN r.a[1] :
    r.cartesian[p][x] # Dot(r.crystal[p], [i \in DOMAIN r.a |-> r.a[i][x]]) THEN "wrong coordinates" ELSE "ok"
OfZone(r) ==
  LET n == Len(r.got) IN
  IF n < 2 \/ r.got[1] # r.got[n] THEN "not closed"
  ELSE IF \E i \in 1 .. n : ~ Corner(r.angle, r.got[i]) THEN "not a corner of the Brillouin zone"
  ELSE IF n # (IF r.angle = 90 THEN 5 ELSE 7) \/ Cardinality(ToSet(r.got)) # n - 1 THEN "wrong corners"
  ELSE IF \E i \in 1 .. n - 1 : Cross2(r.got[i], r.got[i + 1]) <= 0 THEN "wrong order" ELSE "ok"

Verdict(r) ==
  IF r.exc # "" THEN "raised " \o r.exc
  ELSE CASE r.kind = "primitives" -> OfPrimitives(r)
         [] r.kind = "free" -> OfFree(r)
         [] r.kind = "reciprocals" -> OfReciprocals(r)
         [] r.kind = "volume" -> OfVolume(r)
         [] r.kind = "rotate" -> OfRotate(r)
         [] r.kind = "translations" -> OfTranslations(r)
         [] r.kind = "cartesian" -> OfCartesian(r)
         [] r.kind = "zone" -> OfZone(r)
=============================================================================
