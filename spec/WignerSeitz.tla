------------------------------ MODULE WignerSeitz ------------------------------
(* Nearest periodic images on a mesh nr of a lattice with basis vectors `at`
   (rows, integer Cartesian components; all lengths are exact).              *)
EXTENDS Lattice, TLC

Norm(v) == Dot(v, v)
Mod3(R, nr) == [i \in 1 .. 3 |-> R[i] % nr[i]]
Mesh3(nr) == {<<a, b, c>> : a \in 0 .. nr[1] - 1, b \in 0 .. nr[2] - 1, c \in 0 .. nr[3] - 1}
Box(m, nr, lo, hi) == {<<m[1] + (a * nr[1]), m[2] + (b * nr[2]), m[3] + (c * nr[3])>> :
                         a \in lo .. hi, b \in lo .. hi, c \in lo .. hi}
(* all nearest images of mesh element m for the bond d = tau2[j] - tau[i] *)
NearestIn(box, d, at) ==
  LET len == TLCEval([R \in box |-> Norm(Add(Comb(R, at), d))])
      all == {len[R] : R \in box}
      l == CHOOSE l \in all : \A k \in all : l <= k
  IN {R \in box : len[R] = l}
Nearest(m, nr, d, at, w) == NearestIn(Box(m, nr, -w, w - 1), d, at)

(* ---- model on the Wigner-Seitz lattice from mesh data ---------------------
   dat: function of <<i, j, m>>; the element for R belongs to mesh element
   sgn * R and is divided by the number of nearest images.                   *)
=============================================================================
