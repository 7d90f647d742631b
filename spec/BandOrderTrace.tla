---------------------------- MODULE BandOrderTrace ----------------------------
(* Conformance of dispersion.band_order, dispersion.dispersion(order=True) and
   dispersion.map_dispersions.                                                *)
EXTENDS BandOrder, Judge

IsPerm(o, n) == Len(o) = n /\ {o[i] : i \in DOMAIN o} = 0 .. n - 1
(* points: [v, V, known]; known: are the eigenvectors meaningful (as observed
   by the caller) also at degenerate points? got.o from 0 *)
(* expectation with mean sorting is meaningful only if the means are distinct
   or all orders are known *)
OfOrder(r) ==
  LET pts == r.points
      n == Len(pts[1].v)
      R0 == TLCEval(Ordered(pts, r.dv))
      R == [R0 EXCEPT !.lost = @ \/ (~r.exact /\ ~Simple(pts[1]))]
      fixed == TLCEval([k \in DOMAIN pts |-> R.o[k] # <<>> /\ (r.exact \/ Simple(pts[k]) \/ k = 1)])
      filled == TLCEval([k \in DOMAIN pts |-> IF fixed[k] THEN R.o[k] ELSE [i \in 1 .. n |-> i]])
      e == [i \in 1 .. n |-> SumSeq([k \in DOMAIN pts |-> pts[k].v[filled[k][i]]])]
      sure == ~R.lost /\ (r.exact \/ \A k \in DOMAIN pts : Simple(pts[k])) /\ (\A k \in DOMAIN pts : fixed[k])
              /\ (r.exact \/ ~r.mean \/ Cardinality({e[i] : i \in 1 .. n}) = n)
      want == TLCEval(IF r.mean THEN ByMean(pts, filled) ELSE filled)
  IN IF \E k \in DOMAIN pts : ~IsPerm(r.o[k], n) THEN "not a permutation"
     ELSE IF r.v # <<>> /\ \E k \in DOMAIN pts : r.v[k] # [i \in 1 .. n |-> pts[k].v[r.o[k][i] + 1]]
     THEN "energies not ordered as reported"
     ELSE IF r.W # <<>> /\ \E k \in DOMAIN pts : Simple(pts[k]) /\ \E i \in 1 .. n :
       LET a == r.W[k][i]  b == pts[k].V[r.o[k][i] + 1] IN
       a # b /\ a # [m \in DOMAIN b |-> <<-b[m][1], -b[m][2]>>]
     THEN "eigenvectors not ordered as reported"
     ELSE IF sure /\ \E k \in DOMAIN pts : r.o[k] # [i \in 1 .. n |-> want[k][i] - 1]
     THEN "does not follow the overlap"
     \* with degeneracies: relative order of the sure points (bands may be renamed)
     ELSE IF ~R.lost /\ ~sure /\ ~(\E q \in [1 .. n -> 1 .. n] :
          \A k \in DOMAIN pts : fixed[k] /\ Simple(pts[k]) => \A i \in 1 .. n : r.o[k][i] + 1 = R.o[k][q[i]])
     THEN "does not follow the overlap away from degeneracies"
     ELSE "ok"
(* not ordered: ascending energies *)
OfPlain(r) == IF \E k \in DOMAIN r.points : r.v[k] # r.points[k].v THEN "wrong energies"
  ELSE IF r.W # <<>> /\ \E k \in DOMAIN r.points : Simple(r.points[k]) /\ \E i \in DOMAIN r.v[k] :
       LET a == r.W[k][i]  b == r.points[k].V[i] IN
       a # b /\ a # [m \in DOMAIN b |-> <<-b[m][1], -b[m][2]>>]
  THEN "wrong eigenvectors" ELSE "ok"
(* pairs: <<V1, V2, got>> per point *)
OfMap(r) ==
  IF \E x \in ToSet(r.pairs) : ~IsPerm(x[3], Len(x[1])) THEN "not a permutation"
  ELSE IF \E x \in ToSet(r.pairs) :
    LET n == Len(x[1])
        z == [i \in 1 .. n |-> 0]
        p == Follow([v |-> z, V |-> x[1]], [i \in 1 .. n |-> i], [v |-> z, V |-> x[2]], -1)
    IN p # <<>> /\ x[3] # [i \in 1 .. n |-> p[i] - 1]
  THEN "not the permutation that relates the vectors" ELSE "ok"
Verdict(r) ==
  IF r.exc # "" THEN "raised " \o r.exc
  ELSE IF r.kind = "map" THEN OfMap(r)
  ELSE IF r.kind = "plain" THEN OfPlain(r) ELSE OfOrder(r)
=============================================================================
