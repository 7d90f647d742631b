--------------------------- MODULE WignerSeitzDesign ---------------------------
(* Design check: for reduced lattices and sites inside the cell, the search
   range of two supercells per direction finds all nearest images, pairs of
   sites and their reverse have opposite images, and images are invariant
   under a common shift of all sites.                                        *)
EXTENDS WignerSeitz, TLC

Lattices == {Diag(2, 2, 2), Diag(1, 2, 3),
  <<<<2, -2, 0>>, <<0, 2, -2>>, <<3, 3, 3>>>>,    \* hexagonal, 120 degrees
  <<<<2, -2, 0>>, <<2, 0, -2>>, <<2, 2, 2>>>>,    \* hexagonal, 60 degrees
  <<<<0, 1, 1>>, <<1, 0, 1>>, <<1, 1, 0>>>>,      \* fcc
  <<<<2, 0, 0>>, <<1, 3, 0>>, <<0, 1, 3>>>>}
VARIABLES at, nr, f, done
vars == <<at, nr, f, done>>

(* bond between sites with fractional coordinates f / 2 *)
D2(g) == Comb(g, at)
Near2(m, g, w) == LET at2 == [i \in 1 .. 3 |-> Scale(2, at[i])]
                  IN Nearest(m, nr, D2(g), at2, w)

Init == /\ at \in Lattices
        /\ nr \in {<<1, 1, 1>>, <<2, 1, 1>>, <<2, 2, 1>>, <<3, 2, 1>>, <<1, 1, 2>>}
        /\ f \in {<<0, 0, 0>>, <<1, 0, 0>>, <<1, 1, 0>>, <<-1, 1, 0>>, <<1, -1, 1>>, <<0, 0, -1>>}
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<at, nr, f>>
Spec == Init /\ [][Next]_vars

RangeSuffices == \A m \in Mesh3(nr) : Near2(m, f, 2) = Near2(m, f, 3)
Reverse == \A m \in Mesh3(nr) :
  Near2(Mod3(Neg(m), nr), Neg(f), 2) = {Neg(R) : R \in Near2(m, f, 2)}
Periodic == \A m \in Mesh3(nr) : \A S \in {<<1, 0, 0>>, <<0, -1, 1>>} :
  Near2(Mod3(Add(m, S), nr), Sub(f, Scale(2, S)), 4)
    = {Add(R, S) : R \in Near2(m, f, 4)}
=============================================================================
