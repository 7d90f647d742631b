----------------------------- MODULE CrystalDesign -----------------------------
(* Centrings have the right multiplicity and metric; in rhombohedral and cubic
   lattices all primitive vectors are equivalent; corners of the Brillouin zones. *)
EXTENDS Crystal
VARIABLES i, x
Init == i \in Ibravs /\ x \in {-3, 0, 2} \X {-3, 0, 2} \X {-3, 0, 2}
Next == UNCHANGED <<i, x>>
Spec == Init /\ [][Next]_<<i, x>>
e == <<2, 3, 5>>
G == Gram(i, e, x)
Multiplicity == Det3(Centring(i)) \in {8, 4, 2, -2, -4}
  /\ (i \in {2, 10} <=> Det3(Centring(i)) \in {2, -2})
Symmetric == \A m, n \in I3 : G[m][n] = G[n][m]
Positive == Proper(i, e, x) => G[1][1] > 0 /\ G[2][2] > 0 /\ G[3][3] > 0
Cubes == i \in {2, 3, -3, 5, -5} => G[1][1] = G[2][2] /\ G[2][2] = G[3][3]
Zone == i = 1 => \A angle \in {60, 90, 120} :
  Cardinality({p \in (-6 .. 6) \X (-6 .. 6) : Corner(angle, p)}) = (IF angle = 90 THEN 4 ELSE 6)
=============================================================================
