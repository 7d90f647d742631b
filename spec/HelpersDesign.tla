----------------------------- MODULE HelpersDesign -----------------------------
(* Merging labels pair by pair yields the connected components, for every
   relation and every visiting order of the pairs.                            *)
EXTENDS Helpers
CONSTANT N
VARIABLES rel, label, todo
vars == <<rel, label, todo>>
I == 1 .. N
Pairs == {p \in I \X I : p[1] < p[2]}
Init == /\ rel \in SUBSET Pairs
        /\ label = [i \in I |-> i]
        /\ todo = rel
Next == \E p \in todo :
          /\ todo' = todo \ {p}
          /\ label' = [i \in I |-> IF label[i] = label[p[2]] THEN label[p[1]] ELSE label[i]]
          /\ UNCHANGED rel
Spec == Init /\ [][Next]_vars
R(pairs) == [i \in I |-> [j \in I |-> <<i, j>> \in pairs \/ <<j, i>> \in pairs]]
Classes == {{j \in I : label[j] = label[i]} : i \in I}
Invariant == Classes = Components(R(rel \ todo))
=============================================================================
