----------------------------- MODULE DriverTrace -----------------------------
(* Histories of calls to real drivers.  State: parameters and displacements of
   every driver; each report must be the value of the specification's pure
   function of these, whatever was called before.

   e.d: driver; e.tiles: the report for every copy of the primitive cell.    *)
EXTENDS Driver, HistoryJudge

Start(o) == [par |-> o.par, u |-> [d \in 1 .. Len(o.par) |-> Zeros(o.par[d])], bad |-> ""]

Step(s, e) ==
  IF e.u = <<>> THEN s
  ELSE IF ~Exact(e.u) THEN [s EXCEPT !.bad = "input out of domain"]
  ELSE [s EXCEPT !.u[e.d] = Centred(e.u)]

Tiles(e, x) == \A i \in 1 .. Len(e.tiles) : e.tiles[i] = x

Agree(s, e) ==
  IF e.op = "start" THEN "ok"
  ELSE IF s.bad # "" THEN s.bad
  ELSE IF e.exc # "" THEN "raised " \o e.exc
  ELSE IF ~e.kept THEN "argument modified"
  ELSE LET par == s.par[e.d]
           u == s.u[e.d]
  IN CASE
     e.op = "energy" -> IF Tiles(e, Energy2(par, u)) THEN "ok" ELSE "energy"
  [] e.op = "gradient" -> IF Tiles(e, Gradient(par, u)) THEN "ok" ELSE "gradient"
  [] e.op = "call" ->
       IF e.tiles[1] = [e |-> Energy2(par, u), g |-> Gradient(par, u), v |-> 0]
       THEN "ok" ELSE "energy or gradient via interface"
  [] e.op = "hessian" ->
       IF \A q \in 1 .. Len(e.tiles) :
            e.tiles[q] = LET C == Screened(par, u, q, e.L)
                         IN IF e.asr THEN Balanced(C, Screened(par, u, 1, e.L)) ELSE C
       THEN IF e.avg = <<>> \/ e.avg = Averages(par) THEN "ok" ELSE "average of squared couplings"
       ELSE "second derivative"
  [] e.op = "phonons" ->
       IF e.moved # u THEN "positions of phonon model"
       ELSE IF \A q \in 1 .. Len(e.tiles) : e.tiles[q] = Screened(par, u, q, e.L)
       THEN "ok" ELSE "phonon model"
  [] e.op = "density" ->
       IF \A i \in 1 .. Len(e.tiles) : e.tiles[i] = Density(par, u, ((i - 1) % par.norb) + 1)
       THEN "ok" ELSE "density"
  [] e.op = "electrons" ->
       IF par.excited = 0 /\ ~InGap(par, u, e.mu) THEN "chemical potential"
       ELSE IF \A x \in States(par) : \A j \in 1 .. Len(e.tiles[par.states[x].k]) :
              e.tiles[par.states[x].k][par.states[x].orbital][j] =
              IF j = par.states[x].orbital THEN Energy(par, u, x) ELSE 0
       THEN "ok" ELSE "electronic model"
  [] e.op \in {"save", "file"} ->
       IF Tiles(e, u) THEN "ok" ELSE "displacements not restored"
  [] OTHER -> "ok"
=============================================================================
