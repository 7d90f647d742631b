-------------------------- MODULE SumRulesDesign --------------------------
(* A chain with two atoms: arbitrary symmetric force constants along x, any
   sequence of corrections.  Elements: aa0, bb0, ab0, ab1 (a at the origin, b in
   cell 0 or -1), aa1, bb1 (nearest cells).                                   *)
EXTENDS SumRules, TLC

CONSTANTS Values, Depth

VARIABLES C, orig, n, last
vars == <<C, orig, n, last>>

E(v) == <<<<v, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>
Zero == E(0)
(* lattice vectors -1, 0, 1                                                   *)
m == <<3, 2, 1>>
Row(a, b) == [x \in XYZ |-> <<a[x], b[x]>>]
Build(aa0, bb0, ab0, ab1, aa1, bb1) ==
    << <<Row(E(aa1), E(ab1)), Row(Zero, E(bb1))>>,
       <<Row(E(aa0), E(ab0)), Row(E(ab0), E(bb0))>>,
       <<Row(E(aa1), Zero), Row(E(ab1), E(bb1))>> >>
P == [k \in 1 .. 3 |-> << <<(2 * (k - 2)), 0, 0>>, <<(2 * (k - 2)) + 1, 0, 0>> >>]

Init == /\ \E a, b, d, e, f, g \in Values : C = Build(a, b, d, e, f, g)
        /\ orig = C /\ n = 0 /\ last = "none"

Correct == /\ n < Depth /\ n' = n + 1
           /\ C' = Simple(C, 2) /\ last' = "simple" /\ UNCHANGED orig
Next == Correct
Spec == Init /\ [][Next]_vars

Settled == last = "simple" => NoForces(C, 0)
Keeps == Symmetric(C, m, 0)
Idempotent == last = "simple" => Simple(C, 2) = C
OffSite == \A i \in 1 .. 3 : \A k, l \in 1 .. 2 : \A x, y \in XYZ :
    OnSite(i, 2, k, l) \/ C[i][k][x][l][y] = orig[i][k][x][l][y]
(* forces along the chain exert no torque                                     *)
NoTwist == NoTorques(C, P, 0)

(* ---- least change -------------------------------------------------------- *)
(* one atom, first neighbours, one direction: equal shares                    *)
One(c0, c1) == << << [x \in XYZ |-> << E(c1)[x] >>] >>, << [x \in XYZ |-> << E(c0)[x] >>] >>,
                  << [x \in XYZ |-> << E(c1)[x] >>] >> >>
Q == [k \in 1 .. 3 |-> << <<k - 2, 0, 0>> >>]
Distance(c0, c1, d0, d1) == ((c0 - d0) * (c0 - d0)) + (2 * (c1 - d1) * (c1 - d1))
ASSUME \A c0, c1 \in -3 .. 3 : \A d1 \in -4 .. 4 :
    LET C1 == One(6 * c0, 6 * c1)
        share == c0 + (2 * c1)          \* 6 (c0 + 2 c1) / 3 / 2
        D == One((6 * c0) - (2 * share), (6 * c1) - (2 * share))
        A == << E(share) >>
    IN /\ NoForces(D, 0) /\ Symmetric(D, m, 0)
       /\ Least(C1, D, A, <<>>, Q, m, 0)
       (* nothing fulfilling the rule is closer                               *)
       /\ Distance(6 * c0, 6 * c1, D[2][1][1][1][1], D[1][1][1][1][1])
          <= Distance(6 * c0, 6 * c1, -2 * d1, d1)

(* ---- charges and couplings ------------------------------------------------ *)
ASSUME \A a, b, c \in -2 .. 2 :
    LET Z == << E(a), E(b), E(c) >>
        N == Neutral(Z)
    IN /\ Sum([k \in 1 .. 3 |-> N[k][1][1]]) = 0
       /\ N[1][1][1] - N[2][1][1] = 3 * (a - b)
       /\ (a + b + c = 0 => N = << E(3 * a), E(3 * b), E(3 * c) >>)

ASSUME \A a, b, c \in -3 .. 3 :
    LET d == << << <<<<a>>, <<0>>, <<0>>>>, <<<<b>>, <<0>>, <<0>>>> >>, << <<<<c>>, <<0>>, <<0>>>>, <<<<0>>, <<0>>, <<0>>>> >> >>
        r(i, k) == Relieved(d, 2520, i, k, 1, 1)
    IN /\ Size(r(1, 1) + r(1, 2) + r(2, 1)) <= 3
       /\ (a = 0 => r(1, 1) = 0)
       /\ (a + b + c = 0 => r(1, 1) = 2520 * a)
===========================================================================
