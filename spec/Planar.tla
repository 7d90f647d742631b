-------------------------------- MODULE Planar --------------------------------
(* Folding in two-dimensional lattices.  Points k = p / s and offsets d / s are
   given as integer numerators; the mesh has nk points per direction.         *)
EXTENDS Symmetry

(* 2 s^2 times the squared distance of k - d from the origin *)
Dist(angle, k, d) == Length2(angle, <<k[1] - d[1], k[2] - d[2]>>)
(* all equivalent points in a window that surely contains the cell around d *)
Window(k, d, nk, s, w) ==
  LET base(i) == d[i] + ((k[i] - d[i]) % (nk * s))
  IN {<<base(1) + (a * nk * s), base(2) + (b * nk * s)>> : a \in -w .. w - 1, b \in -w .. w - 1}
Folded(angle, k, d, nk, s) ==
  LET W == Window(k, d, nk, s, 2)
      l == TLCEval([p \in W |-> Dist(angle, p, d)])
      m == CHOOSE x \in {l[p] : p \in W} : \A p \in W : x <= l[p]
  IN {p \in W : l[p] = m}

=============================================================================
