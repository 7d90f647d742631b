----------------------------- MODULE DriverDesign -----------------------------
(* A driver caches the electronic states of the displacements they have last
   been calculated for.  Reports are pure as long as they use the cache only
   when it belongs to the current displacements.

   Invariants relate energy, gradient and second derivatives exactly.        *)
EXTENDS Driver

CONSTANTS MaxU

(* One atom pair along a line, two bands, one or two wave vectors. *)
State(e, c, k, i) == [e |-> e, c |-> <<c, 0, 0, 0 - c, 0, 0>>, k |-> k, i |-> i,
                      site |-> 0, orbital |-> i]
Params ==
  {[states |-> IF nk = 1 THEN <<State(0, c1, 1, 1), State(9, c2, 1, 2)>>
               ELSE <<State(0, c1, 1, 1), State(9, c2, 1, 2),
                      State(2, c1, 2, 1), State(7, c2, 2, 2)>>,
    nk |-> nk, pairs |-> 1, excited |-> 0, size |-> 6, unscreen |-> us,
    D |-> [q \in 1 .. 1 |-> [x \in 1 .. 6 |-> [y \in 1 .. 6 |->
             IF (x - 1) % 3 # (y - 1) % 3 THEN 0
             ELSE IF x = y THEN k ELSE 0 - k]]],
    mix |-> [x \in 1 .. 6 |-> IF x = 3 THEN <<<<1, 2, m>>, <<2, 1, m>>>> ELSE <<>>],
    own |-> <<[z \in 1 .. 2 * nk |-> [x \in 1 .. 6 |-> 0]]>>,
    to |-> <<[k2 \in 1 .. nk |-> k2]>>, at |-> [x \in 1 .. 6 |-> 0]] :
      nk \in {1, 2}, c1 \in {0, 1}, c2 \in {-1, 2}, us \in BOOLEAN, k \in {1, 3}, m \in {0, 2}}

VARIABLES par, u, cached, report
vars == <<par, u, cached, report>>

Displace(z) == <<z, 0, 0, 0 - z, 0, 0>>
Us == {Displace(z) : z \in (0 - MaxU) .. MaxU}

Init == /\ par \in Params
        /\ u = Displace(0) /\ cached = Displace(0) /\ report = <<>>

Displaced == \E v \in Us : u' = v /\ UNCHANGED <<par, cached>> /\ report' = <<>>
Calculate == cached' = u /\ UNCHANGED <<par, u>> /\ report' = <<>>
Evaluate == \E v \in Us : /\ u' = v /\ cached' = v /\ UNCHANGED par
                          /\ report' = <<"energy", Energy2(par, v)>>
Differentiate == /\ cached = u \* discipline
                 /\ report' = <<"gradient", Gradient(par, cached)>>
                 /\ UNCHANGED <<par, u, cached>>
Next == Displaced \/ Calculate \/ Evaluate \/ Differentiate
Spec == Init /\ [][Next]_vars

Pure == \/ report = <<>>
        \/ report[1] = "energy" /\ report[2] = Energy2(par, u)
        \/ report[1] = "gradient" /\ report[2] = Gradient(par, u)

Plus(a, b) == [x \in 1 .. Len(a) |-> a[x] + b[x]]
Minus(a, b) == [x \in 1 .. Len(a) |-> a[x] - b[x]]

(* Exact wherever the occupations do not change in between. *)
Same(v) == Occupied(par, Plus(u, v)) = Occupied(par, u)
           /\ Occupied(par, Minus(u, v)) = Occupied(par, u)
Slope == LET v == Displace(1) IN Same(v) =>
  Energy2(par, Plus(u, v)) - Energy2(par, Minus(u, v)) = 4 * Inner(Gradient(par, u), v)

Curvature == LET v == Displace(1) IN Same(v) =>
  \A x \in {1, 2, 4, 5} : Gradient(par, Plus(u, v))[x] - Gradient(par, u)[x]
    = par.nk * Inner(par.D[1][x], v)

AtRest == /\ \A x \in 1 .. 6 : Gradient(par, Zeros(par))[x] = 0
          /\ par.unscreen => \A x, y \in 1 .. 6 :
               Screened(par, Zeros(par), 1, 1260)[x][y] = 1260 * par.D[1][x][y]

(* Mixing lowers the energy of the occupied states. *)
Softens == ~par.unscreen => Screened(par, u, 1, 1260)[3][3] <= 1260 * par.D[1][3][3]

Counts == Cardinality(Occupied(par, u)) = par.pairs * par.nk
=============================================================================
