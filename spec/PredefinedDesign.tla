------------------------ MODULE PredefinedDesign ------------------------
(* Hoppings and couplings of graphene grow from arbitrary seeds by adding
   images under the generators of the symmetry and adjoints, until nothing is
   new.  What has grown fulfils all rules; anything less does not.  Couplings
   are vectors in lattice coordinates here, so that everything is exact.      *)
EXTENDS Predefined

CONSTANTS Seeds, Reach

SomeSeeds == {<<1, 0, 0>>, <<0, 1, 0>>, <<2, 1, 1>>}
X == Crystals["graphene"]
pos == X.pos
gens == X.gens

Cells == {<<i, j, 0>> : i, j \in -Reach .. Reach}
Column(v) == [x \in I3 |-> v[x]]
(* lattice coordinates: the action itself                                      *)
Lattice(g) == LET e == [y \in I3 |-> Act(g, [i \in I3 |-> IF i = y THEN 1 ELSE 0])]
              IN [x \in I3 |-> [y \in I3 |-> e[y][x]]]
Unit(g) == << <<1>> >>

VARIABLES pairs, triples, phase
vars == <<pairs, triples, phase>>

(* elements: <<key, value>>                                                    *)
Init == /\ \E R \in Cells : \E a, b \in 1 .. 2 : pairs = {<< <<R, a, b>>, 1 >>}
        /\ \E K \in Cells : \E b \in 1 .. 2 : \E v \in Seeds :
            triples = {<< <<1, <<0, 0, 0>>, K, 1, b>>, v >>}
        /\ phase = "growing"

MorePairs == pairs \cup {<<PairAdjoint(e[1]), e[2]>> : e \in pairs}
    \cup UNION {{<<PairImage(pos, g, e[1]), e[2]>> : e \in pairs} : g \in gens}
MoreTriples == triples \cup {<<TripleAdjoint(e[1]), e[2]>> : e \in triples}
    \cup UNION {{<<TripleImage(pos, pos, g, e[1]), Act(g, e[2])>> : e \in triples} : g \in gens}

Grow == /\ phase = "growing"
        /\ pairs' = MorePairs /\ triples' = MoreTriples
        /\ phase' = IF pairs' = pairs /\ triples' = triples THEN "grown" ELSE "growing"

RECURSIVE SumSet(_, _)
SumSet(E, x) == IF E = {} THEN 0 ELSE LET e == CHOOSE e \in E : TRUE IN e[2][x] + SumSet(E \ {e}, x)

P == LET K == {e[1] : e \in pairs}
     IN [k \in K |-> << << <<1>> >>, << <<0>> >> >>]
T == LET K == {e[1] : e \in triples}
     IN [k \in K |-> [x \in I3 |-> << << <<SumSet({e \in triples : e[1] = k}, x)>> >>, << <<0>> >> >>]]

(* corrected on-site element, motion of both ends                              *)
OnSite == {<< <<0, 0, 0>>, a, a >> : a \in 1 .. 2}
Away(F, a) == LET K == {k \in DOMAIN F : k[2] = a} \ OnSite IN SumOver([k \in K |-> F[k][1][1][1]], K)
Corrected(F) == [k \in DOMAIN F \cup OnSite |->
    IF k \in OnSite THEN << << <<-Away(F, k[2])>> >>, << <<0>> >> >> ELSE F[k]]

(* other end of the pair of orbitals moves in the opposite direction           *)
Other(k) == << k[5], k[3], k[3], k[4], k[5] >>
Relative(F) ==
    LET K == DOMAIN F \cup {<<k[4], <<0, 0, 0>>, k[3], k[4], k[5]>> : k \in DOMAIN F}
                \cup {Other(k) : k \in DOMAIN F}
        V(k) == GetAll(F, k, 1)
        first(k) == <<k[4], <<0, 0, 0>>, k[3], k[4], k[5]>>
    IN [k \in K |-> [x \in I3 |-> << << <<
        IF Other(k) = first(k) THEN 0
        ELSE IF k = first(k) THEN V(k)[x][1][1][1] - V(Other(k))[x][1][1][1]
        ELSE V(k)[x][1][1][1] - V(first(k))[x][1][1][1]>> >>, << <<0>> >> >>]]

Finish == /\ phase = "grown" /\ phase' = "done" /\ UNCHANGED <<pairs, triples>>
Next == Grow \/ Finish
Spec == Init /\ [][Next]_vars

Sound == phase # "growing" =>
    LET p == TLCEval(P)
        t == TLCEval(T)
        c == TLCEval(Corrected(p))
    IN /\ HermitianPairs(p, 1, 0) /\ SymmetricPairs(p, pos, gens, 1, Unit, 1, 0)
       /\ HermitianTriples(t, 1, 0)
       /\ SymmetricTriples(t, pos, pos, gens, 1, Lattice, Unit, 1, 0)
       /\ HermitianPairs(c, 1, 0) /\ SymmetricPairs(c, pos, gens, 1, Unit, 1, 0)
       /\ AcousticPairs(c, 2, 1, 0)
(* couplings that depend on the difference of displacements                    *)
Rigid == phase # "growing" =>
    LET r == TLCEval(Relative(TLCEval(T)))
    IN /\ AcousticTriples(r, 1, 0) /\ HermitianTriples(r, 1, 0) /\ TwoCentre(r, pos, pos, 0)
       /\ SymmetricTriples(r, pos, pos, gens, 1, Lattice, Unit, 1, 0)
(* nothing is symmetric before all images are there: what is missing is missed  *)
Complete == (phase = "growing" /\ pairs # MorePairs) =>
    LET p == TLCEval(P) IN ~ (HermitianPairs(p, 1, 0) /\ SymmetricPairs(p, pos, gens, 1, Unit, 1, 0))
(* one element changed, removed, or moved is noticed                            *)
Sensitive == phase = "grown" =>
    LET p == TLCEval(P)
        ok(F) == HermitianPairs(F, 1, 0) /\ SymmetricPairs(F, pos, gens, 1, Unit, 1, 0)
        K == DOMAIN p
    IN Cardinality(K) > 2 => \A k \in K :
        /\ ~ ok([l \in K |-> IF l = k THEN << << <<2>> >>, << <<0>> >> >> ELSE p[l]])
        /\ ~ ok([l \in K \ {k} |-> p[l]])

(* the symmetries are symmetries, of finite order, and preserve lengths         *)
ASSUME \A c \in DOMAIN Crystals : \A g \in Crystals[c].gens :
    /\ IsSymmetry(Crystals[c].pos, Crystals[c].kinds, g)
    /\ \A v \in {<<1, 0, 0>>, <<0, 1, 0>>, <<2, -1, 1>>} :
        IF g = "c3" THEN Act(g, Act(g, Act(g, v))) = v ELSE Act(g, Act(g, v)) = v
ASSUME \A c \in {"graphene", "tas2"} : \A g \in Crystals[c].gens : \A i, j \in -2 .. 2 :
    LET w == Act(g, <<i, j, 0>>)
    IN (w[1] * w[1]) + (w[2] * w[2]) - (w[1] * w[2]) = (i * i) + (j * j) - (i * j)
(* both forms of the action agree: Cartesian vectors of a1 = (1, 0),
   a2 = (-1/2, sqrt(3)/2)                                                        *)
Cartesian(v) == <<(2 * v[1] * H) - (v[2] * H), v[2] * S, v[3] * N>>
ASSUME \A g \in {"c3", "sx", "c2", "mz"} : \A i, j, l \in -1 .. 1 :
    LET v == Cartesian(<<i, j, l>>)
        w == Cartesian(Act(g, <<i, j, l>>))
    IN \A x \in I3 : Abs((Sum([y \in I3 |-> Vector(g)[x][y] * v[y]]) \div N) - w[x]) <= 2
(* orbitals: products of the Cartesian ones (xy, x2-y2 with the same factor)     *)
ASSUME \A g \in {"c3", "sx", "mz"} :
    LET V == Vector(g)
        O == Orbital(g, 3)
    IN /\ Abs(((V[1][1] * V[1][1]) \div N) - ((V[1][2] * V[1][2]) \div N) - O[2][2]) <= 2
       /\ Abs((2 * ((V[1][1] * V[2][1]) \div N)) - O[3][2]) <= 3
       /\ Abs(((V[1][1] * V[2][2]) \div N) + ((V[1][2] * V[2][1]) \div N) - O[3][3]) <= 3
       /\ Abs(((V[1][1] * V[1][2]) \div N) - ((V[2][1] * V[2][2]) \div N) - O[2][3]) <= 3
=============================================================================
