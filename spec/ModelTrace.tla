------------------------------- MODULE ModelTrace -------------------------------
(* Conformance of histories of el.Model, ph.Model and elel.Model.
   Observations: rows (all lattice vectors), raw (nonzero elements with the
   number of their row), and attached data.  Transition uses only the
   operation's arguments and, for supercells, the reported list of cells.     *)
EXTENDS Model, HistoryJudge

ToSet(s) == {s[i] : i \in 1 .. Len(s)}

(* raw: [row, a, b, re, im] *)
Observed(o) ==
  IF Distinct(o.rows)
  THEN {<<o.rows[x[1]], x[2], x[3], x[4], x[5]>> : x \in ToSet(o.raw)}
  ELSE Merge({<<o.rows[x[1]], x[2], x[3], x[4], x[5], x[1]>> : x \in ToSet(o.raw)})

Start(o) == [elems |-> Observed(o), size |-> o.size, at |-> o.at,
             cells |-> <<Zero3>>, N |-> <<>>, meta |-> o.meta, bad |-> "", std |-> FALSE]

(* meta.a: lattice; meta.sites: per-atom data (position, mass, species, Z, Q);
   meta.flags: settings of the model.  For electrons, sites is empty. *)
Moved(site, v) == [site EXCEPT !.r = Add(@, v)]

SuperMeta(meta, M, cells) ==
  [meta EXCEPT !.a = [i \in 1 .. Len(@) |-> Comb(M[i], @)],
               !.sites = [x \in 1 .. Len(cells) * Len(@) |->
                  LET i == (x - 1) \div Len(@) IN LET na == (x - 1) % Len(@)
                  IN Moved(@[na + 1], Comb(cells[i + 1], meta.a))]]

UnitMeta(meta, s) ==
  LET V == Len(s.cells)
      n == Len(meta.sites) \div V
      o == CHOOSE i \in 1 .. V : s.cells[i] = Zero3
      D == Dual(s.N)
      \* primitive vectors: inverse of N applied to supercell vectors
      prim == [j \in 1 .. Len(meta.a) |-> LET t == <<D[1][j], D[2][j], D[3][j]>>
                IN [x \in 1 .. 3 |-> Comb(t, meta.a)[x] \div V]]
  IN [meta EXCEPT !.a = prim,
                  !.sites = [x \in 1 .. n |-> @[(o - 1) * n + x]]]

OrderMeta(meta, order) ==
  [meta EXCEPT !.sites = [i \in 1 .. Len(@) |-> @[order[i] + 1]]]
ShiftMeta(meta, sel, S) ==
  [meta EXCEPT !.sites = [i \in 1 .. Len(@) |->
     IF i - 1 \in sel THEN Moved(@[i], Comb(S, meta.a)) ELSE @[i]]]

(* `at` indices (3 displacements per atom or 1 orbital) are reordered together *)
Spread(order, at) == [i \in 1 .. at * Len(order) |->
                        (at * order[((i - 1) \div at) + 1]) + ((i - 1) % at)]

Step(s, e) ==
  IF e.exc # "" THEN [s EXCEPT !.bad = "raised " \o e.exc] ELSE
  CASE e.op = "super" ->
         IF ~Represent(e.cells, e.M)
         THEN [s EXCEPT !.bad = "cells do not represent each class once"]
         ELSE [s EXCEPT !.elems = Super(@, s.size, e.M, e.cells),
                        !.size = @ * Len(e.cells), !.cells = e.cells,
                        !.N = e.M, !.meta = SuperMeta(@, e.M, e.cells),
                        !.std = FALSE]
    [] e.op = "unit" ->
         [s EXCEPT !.elems = Unit(@, s.size, s.N, s.cells),
                   !.size = @ \div Len(s.cells), !.cells = <<Zero3>>, !.N = <<>>,
                   !.meta = UnitMeta(@, s), !.std = FALSE]
    [] e.op = "order" ->
         [s EXCEPT !.elems = Order(@, Spread(e.order, s.at)),
                   !.meta = OrderMeta(@, e.order)]
    [] e.op = "shift" ->
         [s EXCEPT !.elems = Shift(@, {(s.at * x) + y : x \in ToSet(e.sel), y \in 0 .. s.at - 1}, e.S),
                   !.meta = ShiftMeta(@, ToSet(e.sel), e.S), !.std = FALSE]
    [] e.op = "std" ->
         [s EXCEPT !.elems = IF e.q = 0 THEN @ ELSE Threshold(@, e.p, e.q), !.std = TRUE]
    [] e.op = "sym" -> [s EXCEPT !.elems = Symmetrized(IF e.q = 0 THEN @ ELSE Threshold(@, e.p, e.q)),
                   !.std = TRUE]
    [] e.op = "clear" -> [s EXCEPT !.elems = {}]
    [] OTHER -> s \* pure observations

GammaSum(elems, M, cells, size) ==
  Merge({<<Zero3, e[2], e[3], e[4], 0, e[1]>> : e \in Super(elems, size, M, cells)})

Agree(s, e) ==
  IF s.bad # "" THEN s.bad
  ELSE IF e.op = "sparse" THEN
    IF ~Represent(e.cells, e.M) THEN "cells do not represent each class once"
    ELSE IF {<<Zero3, x[1], x[2], x[3], 0>> : x \in ToSet(e.gamma)}
         # {<<y[1], y[2], y[3], y[4], 0>> : y \in {y \in
               GammaSum(s.elems, e.M, e.cells, s.size) : y[4] # 0}}
      THEN "sparse supercell is not the dense one at zero wave vector"
    ELSE "ok"
  ELSE IF e.op = "H" THEN
    IF FourierSet(s.elems, s.size, e.k4) # ToSet(e.gamma)
    THEN "wrong matrix at wave vector" ELSE "ok"
  ELSE IF e.op = "H6" THEN
    IF Fourier6(s.elems, e.k4) # ToSet(e.gamma)
    THEN "wrong matrix at wave vector" ELSE "ok"
  ELSE IF e.op = "v" THEN
    IF UNION {Velocity(s.elems, e.k4, x) : x \in 1 .. 3} # ToSet(e.gamma)
    THEN "wrong velocity" ELSE "ok"
  ELSE IF e.op = "get" THEN
    IF {<<x[2], x[3], x[4], x[5]>> : x \in {y \in s.elems : y[1] = e.k4}}
       # ToSet(e.gamma) THEN "wrong real-space element" ELSE "ok"
  ELSE IF e.op = "mesh" THEN
    IF e.shape # e.N \o <<s.size, s.size>> THEN "wrong shape of sampled data"
    ELSE IF UNION {{i \o x : x \in FourierSet(s.elems, s.size, [j \in 1 .. 3 |->
                      IF j <= Len(e.N) THEN i[j] * (4 \div e.N[j]) ELSE 0])} :
              i \in {n \in [1 .. Len(e.N) -> 0 .. 3] :
                       \A j \in 1 .. Len(e.N) : n[j] < e.N[j]}}
       # ToSet(e.gamma) THEN "sampled data not in mesh order" ELSE "ok"
  ELSE IF e.size # s.size THEN "wrong number of orbitals"
  ELSE IF e.op = "super" /\ e.N # e.M THEN "wrong supercell vectors"
  ELSE IF e.op # "start" /\ s.std /\ ~Distinct(e.rows) THEN "repeated lattice vectors"
  ELSE IF e.op \in {"super", "unit"} /\ ~Distinct(e.rows) THEN "repeated lattice vectors"
  ELSE IF e.op \in {"std", "sym"} /\ ~Sorted(e.rows) THEN "lattice vectors not sorted"
  ELSE IF e.op \in {"std", "sym"} /\ \E i \in 1 .. Len(e.rows) :
          \A x \in ToSet(e.raw) : x[1] # i THEN "vanishing lattice vector kept"
  ELSE IF Observed(e) # s.elems THEN "wrong matrix elements"
  ELSE IF e.meta.a # s.meta.a THEN "wrong lattice vectors of the cell"
  ELSE IF e.meta.flags # s.meta.flags THEN "unit settings lost"
  ELSE IF e.meta.nat # Len(s.meta.sites) \/ e.meta.sites # s.meta.sites THEN "positions, masses or species do not follow"
  ELSE "ok"
=============================================================================
