---------------------------- MODULE OutputsTrace ----------------------------
(* Judges what the readers return for printed documents.                      *)
EXTENDS Outputs, Judge

Differ(a, b) == {f \in DOMAIN a : f \notin DOMAIN b \/ a[f] # b[f]}

Compare(want, got) ==
  LET D == Differ(want, got)
  IN IF D = {} THEN "ok" ELSE "not what is printed: " \o (CHOOSE f \in D : TRUE)

Ordered(r) ==
  LET a == Projected(r)
      n == IF r.squared THEN (IF r.other THEN r.d[3] + 1 ELSE r.d[3]) ELSE 2 * r.d[3]
  IN IF r.got.k # a.k THEN "not what is printed: k"
     ELSE IF Len(r.got.e) # Len(a.e) \/ Len(r.got.w) # Len(a.w) THEN "number of values"
     ELSE IF \E i \in 1 .. r.d[1] : StatesAt(r.got, r.d, n, i) # StatesAt(a, r.d, n, i)
     THEN "states torn apart" ELSE "ok"

OfOutputs(r) ==
  IF r.exc # "" THEN r.exc
  ELSE IF r.kind = "projections"
       THEN IF ~ Steps(r.got.k, r.x) THEN "length of path"
            ELSE IF r.order THEN Ordered(r) ELSE Compare(Projected(r), r.got)
  ELSE Compare(Read(r), r.got)
=============================================================================
