----------------------------- MODULE PlanarDesign -----------------------------
(* The window of +-2 cells around the offset contains all nearest images, the
   folded set is invariant under lattice translations, moves with the offset,
   and is mapped by the point group.                                          *)
EXTENDS Planar
CONSTANTS NMAX, S
VARIABLES angle, nk, k, d
vars == <<angle, nk, k, d>>
Init == /\ angle \in {60, 90, 120} /\ nk \in 1 .. NMAX
        /\ k \in (0 .. nk * S - 1) \X (0 .. nk * S - 1) /\ d \in (0 .. S) \X (0 .. S)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
F == Folded(angle, k, d, nk, S)
WindowSuffices == LET W == Window(k, d, nk, S, 4)
                      l(p) == Dist(angle, p, d)
                  IN F = {p \in W : \A q \in W : l(p) <= l(q)}
Periodic == F = Folded(angle, <<k[1] + (nk * S), k[2] - (2 * nk * S)>>, d, nk, S)
Moves == Folded(angle, <<k[1] + 1, k[2]>>, <<d[1] + 1, d[2]>>, nk, S) = {<<p[1] + 1, p[2]>> : p \in F}
Covariant == d = <<0, 0>> => \A op \in Ops(angle) :
  Folded(angle, Apply(angle, op, k), d, nk, S) = {Apply(angle, op, p) : p \in F}
Bounded == Cardinality(F) \in 1 .. (IF angle = 90 THEN 4 ELSE 3)
=============================================================================
