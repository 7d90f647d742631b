------------------------- MODULE TetrahedronDesign -------------------------
(* Sweeping the energy through a triangle: densities are slopes of the states
   swept over; everything is swept in the end.                                *)
EXTENDS Tetrahedron

CONSTANTS Top, L

VARIABLES A, B, C, e, swept
vars == <<A, B, C, e, swept>>

Init == /\ A \in 0 .. Top /\ B \in A .. Top /\ C \in B .. Top /\ A < C
        /\ e = -1 /\ swept = 0
Slopes(x) == <<SlopeRight(L, x, 2 * A, 2 * B, 2 * C), SlopeLeft(L, x + 1, 2 * A, 2 * B, 2 * C)>>
(* slopes are linear in between doubled integer energies                       *)
Next == /\ e <= 2 * Top /\ e' = e + 1
        /\ swept' = swept + Slopes(e)[1] + Slopes(e)[2]
        /\ UNCHANGED <<A, B, C>>
Spec == Init /\ [][Next]_vars

Counted == swept = Below(L, e, 2 * A, 2 * B, 2 * C)
Complete == e > 2 * Top => swept = 4 * L * L
Positive == \A s \in 1 .. 2 : Slopes(e)[s] >= 0

(* crossings do not depend on the choice of the cell                           *)
Shift(f) == [i \in 1 .. Len(f) |-> f[(i % Len(f)) + 1]]
X == << <<0, 1, 2>>, <<2, -1, 1>>, <<1, 2, -2>> >>
Y == << <<1, -1, 0>>, <<0, 2, 1>>, <<-2, 0, 2>> >>
Summed(x, y, f, z) == LET S == Crossings(x, y, f, z)
                          g == [p \in Places(S) |-> Weight(S, p, 3600)]
                      IN SumOver(Places(S), g)
ASSUME \A z \in -1 .. 1 : Summed(X, Y, Y, z) = Summed(Shift(X), Shift(Y), Shift(Y), z)
(* the triangles around interior points are cut such that they lie in the zone *)
ASSUME \A n \in 2 .. 6 : \A t \in ZoneTriangles(n) : \A c \in t : Within(c, 2 * n)
ASSUME Cardinality(ZoneTriangles(3)) > 0
===========================================================================
