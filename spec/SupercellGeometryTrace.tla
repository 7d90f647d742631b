------------------------- MODULE SupercellGeometryTrace -------------------------
(* C04, conformance: judges recorded results of the real supercell functions.  *)
EXTENDS Lattice, Judge

(* -- judging real results: r.arg is the argument as given (3-vectors), r.N
   the reported number, r.M the reported vectors, r.B the reported duals,
   r.cells the reported cells, r.maps a list of [R, S, index]. *)
Verdict(r) ==
  IF r.exc # "" THEN "raised " \o r.exc
  ELSE IF r.M # r.arg THEN "supercell vectors are not the requested ones"
  ELSE IF r.N # Vol(r.arg) THEN "number of cells is not the volume"
  ELSE IF \E i, j \in 1 .. 3 : Dot(r.B[i], r.M[j]) # IF i = j THEN r.N ELSE 0
    THEN "reciprocal vectors are not dual"
  ELSE IF ~Represent(r.cells, r.M) THEN "cells do not represent each class once"
  ELSE IF \E k \in 1 .. Len(r.maps) :
            LET m == r.maps[k] IN
              ~ (/\ m[3] \in 0 .. Len(r.cells) - 1
                 /\ m[1] = Add(Comb(m[2], r.M), r.cells[m[3] + 1]))
    THEN "decomposition is wrong"
  ELSE "ok"
=============================================================================
