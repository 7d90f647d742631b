---------------------------- MODULE BandOrderDesign ----------------------------
(* Bands with characters 1 .. B (unit vectors) along a path: at every point the
   characters have arbitrary distinct or degenerate energies, so that states
   are an arbitrary permutation of characters.  The order must follow the
   characters wherever states are not degenerate, degenerate points must not
   disturb what follows, and sorting by mean energy only renames bands.       *)
EXTENDS BandOrder
CONSTANTS B, LENGTH
VARIABLE path
Perm == {p \in [1 .. B -> 1 .. B] : Cardinality({p[i] : i \in 1 .. B}) = B}
Unit(c) == [i \in 1 .. B |-> IF i = c THEN <<1, 0>> ELSE <<0, 0>>]
Mixed(c, d) == [i \in 1 .. B |-> IF i = c \/ i = d THEN <<1, 0>> ELSE <<0, 0>>]
Point(p) == [v |-> [j \in 1 .. B |-> j], V |-> [j \in 1 .. B |-> Unit(p[j])], c |-> p]
(* states 1 and 2 degenerate and arbitrarily mixed *)
Degenerate(p) == [v |-> [j \in 1 .. B |-> IF j = 2 THEN 1 ELSE j],
                  V |-> [j \in 1 .. B |-> IF j < 3 THEN Mixed(p[1], p[2]) ELSE Unit(p[j])], c |-> p]
Init == \E p \in Perm : path = <<Point(p)>>
Next == Len(path) < LENGTH /\ \E p \in Perm : \E q \in {Point(p), Degenerate(p)} : path' = Append(path, q)
Spec == Init /\ [][Next]_path
R == Ordered(path, -1)
NeverLost == ~R.lost
Follows == \A n \in DOMAIN path : Simple(path[n]) =>
  \A i \in 1 .. B : path[n].c[R.o[n][i]] = path[1].c[i]
Clean == SelectSeq(path, LAMBDA q : Simple(q))
Renames == LET o == Ordered(Clean, -1).o
               m == ByMean(Clean, o)
           IN \E r \in Perm : \A n \in DOMAIN o : \A i \in 1 .. B : m[n][i] = o[n][r[i]]
=============================================================================
