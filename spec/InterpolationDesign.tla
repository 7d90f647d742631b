-------------------------- MODULE InterpolationDesign --------------------------
(* The weights are a partition of unity on corners of one mesh triangle (or
   square) and reproduce the position; on common edges the cells agree; of all
   stackings on a periodic axis, shifting by at most one period suffices.     *)
EXTENDS Interpolation
CONSTANTS S, P
VARIABLES angle, x, y, q
vars == <<angle, x, y, q>>
Init == /\ angle \in {0, 60, 90, 120} /\ x \in 0 .. S - 1 /\ y \in 0 .. S - 1
        /\ (angle = 0 => y = 0)
        /\ q \in [1 .. 3 -> 0 .. P - 1]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
C == Corners(angle, x, y, S)
Unity == SumW(C, LAMBDA c : c[3]) = S * S /\ \A c \in C : c[3] >= 0
Position == /\ SumW(C, LAMBDA c : c[3] * c[1]) = S * x
            /\ SumW(C, LAMBDA c : c[3] * c[2]) = S * y
Adjacent == \A c, d \in C : LET u == c[1] - d[1]  v == c[2] - d[2] IN
   CASE angle = 60 -> (u * u) + (v * v) + (u * v) <= 1
     [] angle = 120 -> (u * u) + (v * v) - (u * v) <= 1
     [] OTHER -> u * u <= 1 /\ v * v <= 1
(* value on the edge x = 0 does not depend on the cell it is computed from *)
Support(K) == {c \in K : c[3] # 0}
Continuous == x = 0 /\ angle # 0 => \A c \in Support(C) : c[1] = 0 /\ c[3] % S = 0
Exact == x = 0 /\ y = 0 => Support(C) = {<<0, 0, S * S>>}
(* rotating the sequence by a shift of all points changes nothing *)
StackInvariant == x = 0 /\ y = 0 /\ angle = 0 => {Variance(p) : p \in Stackings(q, P)} =
  {Variance(p) : p \in Stackings([i \in 1 .. 3 |-> q[i] + 1], P)}
StackWide == x = 0 /\ y = 0 /\ angle = 0 => LET wide == {[i \in 1 .. 3 |-> q[i] + (P * t[i])] : t \in [1 .. 3 -> -1 .. 2]}
             IN \A p \in wide : \A r \in Stackings(q, P) : Variance(r) <= Variance(p)
=============================================================================
