------------------------------- MODULE Driver -------------------------------
(* Total energy of atoms displaced by u, moving along with independent
   electrons: a pure function of parameters and u.

   In the exactly solvable case described here, the electronic states are the
   same for all u and their energies are linear in u; couplings that mix
   states act along directions in which no atom is displaced.  Without
   thermal broadening, everything is rational.

     par.states  sequence of [e, c, k, i]: energy at u = 0, its derivatives
                 with respect to all displacements, wave vector (or 0), and
                 number of the orbital among its own kind
     par.nk      number of wave vectors;  par.pairs  electron pairs per k
     par.excited pairs lifted from the valence into the conduction bands in total
     par.D       force constants: sequence over q of matrices
     par.mix     mixing couplings: sequence over displacements of sets of
                 <<i, j, value>>
     par.own     own[q][s]: couplings of the same orbital at k and k + q
     par.to      to[q][s]: group of states at k + q for states of group k   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Dot(_, _, _)
Dot(a, b, n) == IF n = 0 THEN 0 ELSE Dot(a, b, n - 1) + (a[n] * b[n])
Inner(a, b) == Dot(a, b, Len(a))

RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN 0
                ELSE LET s == CHOOSE s \in S : TRUE IN f[s] + SumSet(f, S \ {s})

States(par) == 1 .. Len(par.states)
Energy(par, u, s) == par.states[s].e + Inner(par.states[s].c, u)

(* Number of states of the same wave vector below a state. *)
Band(par, E, s) ==
  Cardinality({x \in States(par) : par.states[x].k = par.states[s].k /\ E[x] < E[s]})

Lowest(E, S, n) == {s \in S : Cardinality({x \in S : E[x] < E[s]}) < n}

Occupied(par, u) ==
  TLCEval(LET E == [s \in States(par) |-> Energy(par, u, s)]
      V == {s \in States(par) : Band(par, E, s) < par.pairs}
  IN IF par.excited = 0
     THEN Lowest(E, States(par), par.pairs * par.nk)
     ELSE Lowest(E, V, (par.pairs * par.nk) - par.excited)
          \cup Lowest(E, States(par) \ V, par.excited))

Zeros(par) == [x \in 1 .. par.size |-> 0]

(* Sum over occupied states O of the derivatives of their energies. *)
Slopes(par, O) ==
  [x \in 1 .. par.size |-> SumSet([s \in States(par) |-> par.states[s].c[x]], O)]

(* -- energy: 2 nk E --------------------------------------------------------
   The force on undisplaced atoms is balanced by construction.               *)
Quadratic(par, u) ==
  Inner([x \in 1 .. par.size |-> Inner(par.D[1][x], u)], u)

Energy2(par, u) ==
  LET Z == TLCEval(Slopes(par, Occupied(par, Zeros(par))))
  IN (4 * SumSet([s \in States(par) |-> Energy(par, u, s)], Occupied(par, u)))
     + (par.nk * Quadratic(par, u)) - (4 * Inner(Z, u))

(* -- first derivative: nk dE/du -------------------------------------------- *)
Gradient(par, u) ==
  LET A == TLCEval(Slopes(par, Occupied(par, u)))
      Z == TLCEval(Slopes(par, Occupied(par, Zeros(par))))
  IN [x \in 1 .. par.size |-> (2 * (A[x] - Z[x])) + (par.nk * Inner(par.D[1][x], u))]

(* -- second derivative: L d2E/du2 ------------------------------------------
   Electrons screen the force constants: polarisation of mixed states.       *)
Mixed(par, x, i, j) ==
  LET M == {m \in {par.mix[x][z] : z \in 1 .. Len(par.mix[x])} : m[1] = i /\ m[2] = j}
  IN IF M = {} THEN 0 ELSE (CHOOSE m \in M : TRUE)[3]

Polarisation(par, u, q, L) ==
  LET O == Occupied(par, u)
      E == TLCEval([s \in States(par) |-> Energy(par, u, s)])
      f == TLCEval([s \in States(par) |-> IF s \in O THEN 1 ELSE 0])
      P == TLCEval({p \in States(par) \X States(par) :
        /\ par.states[p[1]].k = par.to[q][par.states[p[2]].k]
        /\ par.states[p[1]].site = par.states[p[2]].site
        /\ f[p[1]] # f[p[2]]})
      (* coupling of a pair to a displacement *)
      G(p, x) ==
        LET i == par.states[p[1]].i
            j == par.states[p[2]].i
        IN IF par.at[x] \notin {0, par.states[p[1]].site} THEN 0
           ELSE IF i = j THEN par.own[q][p[2]][x] ELSE Mixed(par, x, i, j)
      g == TLCEval([p \in P |-> [x \in 1 .. par.size |-> G(p, x)]])
      W(p, x, y) ==
        IF g[p][x] = 0 \/ g[p][y] = 0 THEN 0
        ELSE (2 * g[p][x] * g[p][y] * (f[p[1]] - f[p[2]]) * (L \div par.nk))
             \div (E[p[1]] - E[p[2]])
  IN TLCEval([x \in 1 .. par.size |-> [y \in 1 .. par.size |->
       LET Q == {p \in P : g[p][x] # 0 /\ g[p][y] # 0}
       IN SumSet([p \in Q |-> W(p, x, y)], Q)]])

Screened(par, u, q, L) ==
  LET A == Polarisation(par, u, q, L)
      Z == IF par.unscreen THEN Polarisation(par, Zeros(par), q, L) ELSE <<>>
  IN TLCEval([x \in 1 .. par.size |-> [y \in 1 .. par.size |->
     (L * par.D[q][x][y]) + A[x][y] - (IF par.unscreen THEN Z[x][y] ELSE 0)]])

(* Same with on-site blocks changed by the same for all q, such that those for
   q = 0 (Z) add up to zero (Gonze and Lee, Phys. Rev. B 55, 10355, Eq. 81).  *)
RECURSIVE Total(_, _, _, _)
Total(C, x, c, b) == IF b = 0 THEN 0 ELSE Total(C, x, c, b - 1) + C[x][(3 * b) - 3 + c]
Balanced(C, Z) ==
  LET n == Len(C) \div 3
      atom(x) == ((x - 1) \div 3) + 1
      axis(x) == ((x - 1) % 3) + 1
  IN [x \in 1 .. 3 * n |-> [y \in 1 .. 3 * n |->
        C[x][y] - (IF atom(x) = atom(y) THEN Total(Z, x, axis(y), n) ELSE 0)]]

(* -- coupling averaged over pairs of states with equal weights (q = 0, one
   wave vector), times the number of these pairs                              *)
Averages(par) ==
  LET G(s, t, x) ==
        IF par.states[s].site # par.states[t].site
            \/ par.at[x] \notin {0, par.states[s].site} THEN 0
        ELSE IF s = t THEN par.own[1][s][x]
        ELSE Mixed(par, x, par.states[s].i, par.states[t].i)
      P == {p \in States(par) \X States(par) : par.states[p[1]].site = par.states[p[2]].site}
      g == TLCEval([p \in P |-> [x \in 1 .. par.size |-> G(p[1], p[2], x)]])
  IN TLCEval([x \in 1 .. par.size |-> [y \in 1 .. par.size |->
       LET Q == {p \in P : g[p][x] # 0 /\ g[p][y] # 0}
       IN SumSet([p \in Q |-> g[p][x] * g[<<p[2], p[1]>>][y]], Q)]])

(* -- other properties of the electrons --------------------------------------- *)
Density(par, u, i) ==
  2 * Cardinality({s \in Occupied(par, u) : par.states[s].orbital = i})

InGap(par, u, mu) ==
  /\ \A s \in Occupied(par, u) : 1000 * Energy(par, u, s) < mu
  /\ \A s \in States(par) \ Occupied(par, u) : mu < 1000 * Energy(par, u, s)

(* Displacements relative to the centre (sizes chosen such that this is exact). *)
Centred(u) ==
  LET n == Len(u) \div 3
      RECURSIVE Along(_, _)
      Along(c, a) == IF a = 0 THEN 0 ELSE Along(c, a - 1) + u[(3 * a) - 3 + c]
  IN [x \in 1 .. Len(u) |-> u[x] - (Along(((x - 1) % 3) + 1, n) \div n)]

Exact(u) == \A c \in 1 .. 3 :
  LET n == Len(u) \div 3
      RECURSIVE Along(_)
      Along(a) == IF a = 0 THEN 0 ELSE Along(a - 1) + u[(3 * a) - 3 + c]
  IN Along(n) % n = 0
=============================================================================
