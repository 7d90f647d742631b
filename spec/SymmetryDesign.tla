---------------------------- MODULE SymmetryDesign ----------------------------
(* The operations form the full point group: closed, length-preserving, of the
   right order; the chosen points represent every orbit exactly once; bands
   summed over the group are constant on orbits.  All meshes up to NMAX.      *)
EXTENDS Symmetry
CONSTANT NMAX
VARIABLES angle, nk
Init == angle \in {60, 90, 120} /\ nk \in 1 .. NMAX
Next == UNCHANGED <<angle, nk>>
Spec == Init /\ [][Next]_<<angle, nk>>
Probe == {<<x, y>> : x \in -2 .. 2, y \in -2 .. 2}
Basis(op) == <<Apply(angle, op, <<1, 0>>), Apply(angle, op, <<0, 1>>)>>
GroupOrder == Cardinality({Basis(op) : op \in Ops(angle)}) = (IF angle = 90 THEN 8 ELSE 12)
Closed == \A f, g \in Ops(angle) : \E h \in Ops(angle) : \A k \in {<<1, 0>>, <<0, 1>>} :
            Apply(angle, f, Apply(angle, g, k)) = Apply(angle, h, k)
Linear == \A op \in Ops(angle) : \A k \in Probe :
            Apply(angle, op, k) = <<(k[1] * Basis(op)[1][1]) + (k[2] * Basis(op)[2][1]),
                                    (k[1] * Basis(op)[1][2]) + (k[2] * Basis(op)[2][2])>>
Isometric == \A op \in Ops(angle) : \A k \in Probe :
               Length2(angle, Apply(angle, op, k)) = Length2(angle, k)
Represented == \A k \in Mesh(nk) :
  Cardinality(Orbit(angle, k, nk) \cap Irreducible(angle, nk)) = 1
OrbitsPartition == \A k, p \in Mesh(nk) :
  p \in Orbit(angle, k, nk) => Orbit(angle, p, nk) = Orbit(angle, k, nk)
Invariant == nk \in {1, 2, 3, 4, 6} => \A k \in Mesh(nk) : \A op \in Ops(angle) :
  Band(angle, <<<<3, 1, 0>>, <<-2, 2, 1>>>>, k, nk)
    = Band(angle, <<<<3, 1, 0>>, <<-2, 2, 1>>>>, Fold(Apply(angle, op, k), nk), nk)
=============================================================================
