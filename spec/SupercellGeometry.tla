--------------------------- MODULE SupercellGeometry ---------------------------
(* C04, design: the half-open parallelepiped represents every class exactly once
   and decompositions are unique, for every small supercell matrix.           *)
EXTENDS Lattice

CONSTANT Bound
Entries == -Bound .. Bound

VARIABLES M, phase
dvars == <<M, phase>>

Vec == {<<a, b, c>> : a \in Entries, b \in Entries, c \in Entries}

DInit == /\ phase = 0
         /\ M \in {<<u, v, w>> : u \in Vec, v \in Vec, w \in Vec}
DNext == UNCHANGED dvars
DSpec == DInit /\ [][DNext]_dvars

RECURSIVE SetToSeqL(_)
SetToSeqL(S) == IF S = {} THEN <<>>
                ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeqL(S \ {x})

DesignComplete == Det(M) # 0 => Represent(SetToSeqL(Cells(M)), M)
DesignDual == Det(M) # 0 => \A i, j \in 1 .. 3 :
                Dot(Dual(M)[i], M[j]) = IF i = j THEN Vol(M) ELSE 0
(* Every vector has exactly one decomposition. *)
DesignUnique == Det(M) # 0 =>
   \A R \in {<<1, 0, 0>>, <<-2, 1, 3>>} :
      Cardinality({c \in Cells(M) : InLattice(Sub(R, c), M)}) = 1
=============================================================================
