----------------------------- MODULE HelpersTrace -----------------------------
(* Conformance of misc.split, el.proj_sum, misc.group, misc.vector_index,
   misc.minimum, misc.differential, bravais.point_on_path.                    *)
EXTENDS Helpers, Judge

OfSplit(r) == IF SameBag(r.got, Spell(r.expr)) THEN "ok" ELSE "wrong expansion"

OfSum(r) ==
  LET G == [g \in DOMAIN r.groups |-> Selected(r.groups[g], r.orbitals)]
      W(k, g) == Total(r.proj[k], G[g])
  IN IF \E k \in DOMAIN r.proj : \E g \in DOMAIN G : r.got[k][g] # W(k, g) THEN "wrong sum"
     ELSE IF r.other /\ \E k \in DOMAIN r.proj :
       r.got[k][Len(r.groups) + 1] # 1 - FoldSet(LAMBDA g, acc : acc + W(k, g), 0, DOMAIN G)
     THEN "wrong remaining weight" ELSE "ok"

OfGroup(r) ==
  LET R == [i \in DOMAIN r.points |-> [j \in DOMAIN r.points |-> Near(r.points[i], r.points[j], r.eps)]]
      G == {{r.got[g][i] + 1 : i \in DOMAIN r.got[g]} : g \in DOMAIN r.got}
  IN IF FoldSet(LAMBDA g, acc : acc + Len(r.got[g]), 0, DOMAIN r.got) # Len(r.points) THEN "not a partition"
     ELSE IF G # Components(R) THEN "wrong groups" ELSE "ok"

(* got: position or -1 *)
OfIndex(r) ==
  IF r.got = -1 THEN (IF \E i \in DOMAIN r.vectors : r.vectors[i] = r.vector THEN "not found" ELSE "ok")
  ELSE IF r.got + 1 \in DOMAIN r.vectors /\ r.vectors[r.got + 1] = r.vector THEN "ok" ELSE "wrong index"

(* parabola a (x - h)^2 + c through three distinct points; a = 0: none *)
OfMinimum(r) ==
  IF \E i \in 1 .. 3 : r.y[i] # (r.a * (r.x[i] - r.h) * (r.x[i] - r.h)) + r.c THEN "machinery"
  ELSE IF r.a = 0 THEN (IF r.got = <<>> THEN "ok" ELSE "no extremum")
  ELSE IF r.got = <<r.h>> THEN "ok" ELSE "wrong extremum"

(* weights (doubled): exact integral of piecewise linear functions *)
OfDifferential(r) ==
  IF Len(r.got) # Len(r.x) THEN "wrong shape"
  ELSE IF \E i \in DOMAIN r.x : r.got[i] #
      (IF i = 1 THEN r.x[2] - r.x[1] ELSE IF i = Len(r.x) THEN r.x[i] - r.x[i - 1] ELSE r.x[i + 1] - r.x[i - 1])
  THEN "wrong weight" ELSE "ok"

Dot(u, v) == (u[1] * v[1]) + (u[2] * v[2]) + (u[3] * v[3])
OfBetween(r) ==
  LET u == [i \in 1 .. 3 |-> r.b[i] - r.a[i]]
      v == [i \in 1 .. 3 |-> r.p[i] - r.a[i]]
      on == Dot(u, v) * Dot(u, v) = Dot(u, u) * Dot(v, v) /\ Dot(u, v) >= 0 /\ Dot(v, v) <= Dot(u, u)
  IN IF r.got = on THEN "ok" ELSE "wrong answer"

Verdict(r) ==
  IF r.exc # "" THEN "raised " \o r.exc
  ELSE CASE r.kind = "split" -> OfSplit(r)
         [] r.kind = "sum" -> OfSum(r)
         [] r.kind = "group" -> OfGroup(r)
         [] r.kind = "index" -> OfIndex(r)
         [] r.kind = "minimum" -> OfMinimum(r)
         [] r.kind = "differential" -> OfDifferential(r)
         [] r.kind = "between" -> OfBetween(r)
=============================================================================
