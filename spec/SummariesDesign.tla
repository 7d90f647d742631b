-------------------------- MODULE SummariesDesign --------------------------
(* Two atoms on a line: no rearrangement of a model changes what is listed.    *)
EXTENDS Summaries

CONSTANTS Depth

a == << <<3, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
E(v) == <<v, 0, 0, 0, -v, 0, 0, 0, 0>>
VARIABLES R, C, r, n
vars == <<R, C, r, n>>

Init == \E x, y, z \in {0, 1, 2} :
    /\ R = << <<0, 0, 0>>, <<1, 0, 0>>, <<-1, 0, 0>> >>
    /\ C = << << <<E(x), E(y)>>, <<E(y), E(x)>> >>,
              << <<E(z), E(0)>>, <<E(1), E(z)>> >>, << <<E(z), E(1)>>, <<E(0), E(z)>> >> >>
    /\ r = << <<0, 0, 0>>, <<1, 0, 0>> >>
    /\ n = 0

(* another order of lattice vectors                                            *)
Swap == \E i \in 1 .. Len(R) - 1 :
    LET p == [j \in 1 .. Len(R) |-> IF j = i THEN i + 1 ELSE IF j = i + 1 THEN i ELSE j]
    IN /\ R' = [j \in 1 .. Len(R) |-> R[p[j]]] /\ C' = [j \in 1 .. Len(R) |-> C[p[j]]]
       /\ UNCHANGED r
(* another order of atoms                                                      *)
Order == /\ r' = <<r[2], r[1]>> /\ UNCHANGED R
         /\ C' = [j \in 1 .. Len(R) |-> << <<C[j][2][2], C[j][2][1]>>, <<C[j][1][2], C[j][1][1]>> >>]
(* lattice vectors with vanishing elements removed or added                    *)
Vanishing(j) == \A k, l \in 1 .. 2 : C[j][k][l] = E(0)
Drop == \E j \in 1 .. Len(R) :
    /\ Vanishing(j) /\ Len(R) > 1
    /\ R' = SubSeq(R, 1, j - 1) \o SubSeq(R, j + 1, Len(R))
    /\ C' = SubSeq(C, 1, j - 1) \o SubSeq(C, j + 1, Len(R)) /\ UNCHANGED r
Pad == /\ R' = Append(R, <<2, 0, 0>>) /\ UNCHANGED r
       /\ Len(R) < 4
       /\ C' = Append(C, << <<E(0), E(0)>>, <<E(0), E(0)>> >>)
(* second atom moved to the next cell                                          *)
Back(v) == <<v[1] - 1, v[2], v[3]>>
At(v) == LET J == {j \in 1 .. Len(R) : R[j] = v} IN IF J = {} THEN 0 ELSE CHOOSE j \in J : TRUE
Elem(v, k, l) == IF At(v) = 0 THEN E(0) ELSE C[At(v)][k][l]
Shift == /\ r' = <<r[1], <<r[2][1] + 3, 0, 0>> >> /\ r[2][1] < 3
         /\ Cardinality({R[j] : j \in 1 .. Len(R)}) = Len(R)
         /\ LET Q == [j \in 1 .. 7 |-> <<j - 4, 0, 0>>]
            IN R' = Q /\ C' = [j \in 1 .. 7 |->
                << <<Elem(Q[j], 1, 1), Elem(<<Q[j][1] + 1, 0, 0>>, 1, 2)>>,
                   <<Elem(Back(Q[j]), 2, 1), Elem(Q[j], 2, 2)>> >>]

Next == n < Depth /\ n' = n + 1 /\ (Swap \/ Order \/ Drop \/ Pad \/ (r[1] = <<0, 0, 0>> /\ Len(R) < 7 /\ Shift))
Spec == Init /\ [][Next]_vars

(* distances are 0 (on site), 1 (y), 2 (the other neighbour), 3 (next cell)    *)
Expected ==
    LET B == Bonds(R, C, a, r)
        size(d) == {B[i][2] : i \in {j \in 1 .. Len(B) : B[j][1] = d}}
        many(d) == Cardinality({j \in 1 .. Len(B) : B[j][1] = d})
    IN /\ \A i \in 1 .. Len(B) : B[i][1] \in {0, 1, 4, 9}
       /\ many(4) = 2 /\ size(4) = {2}
       /\ many(0) \in {0, 2} /\ many(1) \in {0, 2} /\ many(9) \in {0, 4}
       /\ Cardinality(size(0)) <= 1 /\ Cardinality(size(1)) <= 1 /\ Cardinality(size(9)) <= 1
Even == Strength(R, C, 2) % 4 = 0 /\ Strength(R, C, 2) > 0
NoSwap == SameBag(Bonds(R, C, a, r), Bonds(R, C, a, r))

ASSUME Sorted(<<3, -1, 3>>, <<-1, 3, 3>>) /\ ~ Sorted(<<3, -1, 3>>, <<-1, -1, 3>>)
ASSUME ~ SameBag(<<1, 1, 2>>, <<1, 2, 2>>) /\ Largest2(<< <<3, -4>>, <<1, 1>> >>) = 25
=============================================================================
