------------------------------- MODULE BandOrder -------------------------------
(* Disentangling bands along a sequence of points.

   A point has ascending energies v (integers) and eigenvectors V (sequence of
   columns of Gaussian integers, common normalisation).  `o` maps bands to
   states.  The reference is the last point without degeneracies (or the first
   point).                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

GMul(x, y) == <<(x[1] * y[1]) - (x[2] * y[2]), (x[1] * y[2]) + (x[2] * y[1])>>
RECURSIVE Inner(_, _, _)
Inner(a, b, n) == IF n = 0 THEN <<0, 0>>
  ELSE LET t == Inner(a, b, n - 1)
           z == GMul(a[n], <<b[n][1], -b[n][2]>>) IN <<t[1] + z[1], t[2] + z[2]>>
Overlap2(a, b) == LET z == Inner(a, b, Len(a)) IN (z[1] * z[1]) + (z[2] * z[2])
AbsD(x) == IF x < 0 THEN -x ELSE x

(* states of point q that are unambiguously the continuation of states o of the
   reference: every reference state has a unique best partner, all different.
   Result: the partners, or <<>> if ambiguous.  dv < 0: unlimited. *)
Follow(ref, o, q, dv) ==
  LET n == Len(o)
      w == TLCEval([i \in 1 .. n |-> [j \in 1 .. n |->
             IF dv < 0 \/ AbsD(ref.v[o[i]] - q.v[j]) < dv THEN Overlap2(ref.V[o[i]], q.V[j]) ELSE 0]])
      best(i) == {j \in 1 .. n : \A k \in 1 .. n \ {j} : w[i][k] < w[i][j]}
      clear == \A i \in 1 .. n : Cardinality(best(i)) = 1
  IN IF ~clear THEN <<>>
     ELSE LET p == [i \in 1 .. n |-> CHOOSE j \in best(i) : TRUE]
          IN IF Cardinality({p[i] : i \in 1 .. n}) = n THEN p ELSE <<>>

Simple(q) == \A j \in 1 .. Len(q.v) - 1 : q.v[j] # q.v[j + 1]

(* Expected order at every point: sequence of permutations or <<>> from the
   first ambiguity on (nothing is expected then). *)
RECURSIVE Walk(_, _, _, _)
Walk(pts, n, acc, dv) == \* acc: [o: orders so far, ref: index, lost: bool]
  IF n > Len(pts) THEN acc
  ELSE LET p == IF acc.lost THEN <<>> ELSE TLCEval(Follow(pts[acc.ref], acc.o[acc.ref], pts[n], dv))
           lost == acc.lost \/ (p = <<>> /\ Simple(pts[n]))
       IN Walk(pts, n + 1, TLCEval([o |-> Append(acc.o, p), ref |-> IF Simple(pts[n]) /\ p # <<>> THEN n ELSE acc.ref,
                            lost |-> lost]), dv)
Ordered(pts, dv) == Walk(pts, 2, [o |-> <<[i \in 1 .. Len(pts[1].v) |-> i]>>, ref |-> 1, lost |-> FALSE], dv)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
(* bands sorted by mean energy, stable *)
ByMean(pts, o) ==
  LET n == Len(o[1])
      e == TLCEval([i \in 1 .. n |-> SumSeq([k \in DOMAIN pts |-> pts[k].v[o[k][i]]])])
      r == SetToSortSeq(1 .. n, LAMBDA i, j : e[i] < e[j] \/ (e[i] = e[j] /\ i < j))
  IN [k \in DOMAIN o |-> [i \in 1 .. n |-> o[k][r[i]]]]
=============================================================================
