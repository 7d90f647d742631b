------------------------------ MODULE PathsDesign ------------------------------
(* The number of points of a segment is unique up to ties.  Two settings of one
   lattice (rows: doubled primitive vectors) name the same Cartesian points.  *)
EXTENDS Paths
CONSTANT MAX
VARIABLES n, m, density, d2, den
Init == /\ n \in 1 .. MAX /\ m \in 1 .. MAX /\ density \in 1 .. MAX /\ d2 \in 0 .. MAX /\ den \in {1, 2, 3}
Next == UNCHANGED <<n, m, density, d2, den>>
Spec == Init /\ [][Next]_<<n, m, density, d2, den>>
Unique == Rounded(n, density, d2, den) /\ Rounded(m, density, d2, den) /\ n < m =>
  m = n + 1 /\ 4 * density * density * d2 = ((2 * n) + 1) * ((2 * n) + 1) * den * den
Span == {-12, 0, 12, 24}
A(i) == CASE i = 3 -> <<<<1, 1, 1>>, <<-1, 1, 1>>, <<-1, -1, 1>>>>
          [] i = -3 -> <<<<-1, 1, 1>>, <<1, -1, 1>>, <<1, 1, -1>>>>
          [] i = 9 -> <<<<1, 1, 0>>, <<-1, 1, 0>>, <<0, 0, 2>>>>
          [] i = -9 -> <<<<1, -1, 0>>, <<1, 1, 0>>, <<0, 0, 2>>>>
At(i, r, P) == \A x \in 1 .. 3 : (A(i)[x][1] * r[1]) + (A(i)[x][2] * r[2]) + (A(i)[x][3] * r[3]) = 2 * P[x]
Same(i, j) == \A l \in DOMAIN Labels(i) : \E r \in Span \X Span \X Span :
                At(i, r, Labels(i)[l]) /\ At(j, r, Labels(j)[l])
Settings == n = 1 /\ m = 1 /\ density = 1 /\ d2 = 0 /\ den = 1 => Same(3, -3) /\ Same(9, -9)
=============================================================================
