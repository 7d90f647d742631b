------------------------------- MODULE ModelOps -------------------------------
(* Design model of the life of a localized model (electrons, phonons,
   interaction): which operations exist and what they do to the matrix
   elements.  TLC visits every history up to Depth from a small start model,
   checks the algebra below in every state, and prints every maximal history
   as JSON so that the harness can replay it on the real classes.             *)
EXTENDS Model, TLC, Json

CONSTANTS Depth, Start, Emitting

VARIABLES m, hist
vars == <<m, hist>>

E(R, a, b, re, im) == <<R, a, b, re, im>>
StartElems ==
  CASE Start = 1 -> { E(<<0, 0, 0>>, 0, 0, 8, 0), E(<<0, 0, 0>>, 1, 1, 16, 0),
                      E(<<0, 0, 0>>, 0, 1, 24, 8), E(<<0, 0, 0>>, 1, 0, 24, -8),
                      E(<<1, 0, 0>>, 0, 0, 32, 40), E(<<-1, 0, 0>>, 0, 0, 32, -40),
                      E(<<0, 1, 0>>, 1, 0, 48, 0), E(<<0, -1, 0>>, 0, 1, 48, 0)}
    [] Start = 2 -> { E(<<0, 0, 0>>, 0, 1, 8, -16), E(<<1, -1, 0>>, 1, 0, 24, 0),
                      E(<<0, 0, 2>>, 1, 1, 0, 32), E(<<-1, 2, 0>>, 0, 0, 40, 0)}

Matrices == {Diag(2, 1, 1), Diag(-2, 1, 1), Diag(1, 2, 1),
             <<<<1, 1, 0>>, <<-1, 1, 0>>, <<0, 0, 1>>>>,
             <<<<0, 0, 1>>, <<1, 2, 0>>, <<0, 1, 0>>>>}
Shifts == {<<1, 0, 0>>, <<0, -2, 1>>}

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>>
            ELSE LET x == CHOOSE x \in S : \A y \in S : ~Less(y, x)
                 IN <<x>> \o SeqOf(S \ {x})

Init == /\ m = [elems |-> StartElems, size |-> 2, cells |-> <<Zero3>>,
                N |-> <<>>, intact |-> FALSE, parent |-> {}]
        /\ hist = <<>>

Log(op) == hist' = Append(hist, op)
More == Len(hist) < Depth

DoSuper(M) ==
  LET cells == SeqOf(Cells(M)) IN
  /\ More /\ m.size <= 4
  /\ m' = [elems |-> Super(m.elems, m.size, M, cells),
           size |-> m.size * Len(cells), cells |-> cells, N |-> M,
           intact |-> TRUE, parent |-> m.elems]
  /\ Log([op |-> "super", M |-> M])

DoUnit ==
  /\ More /\ m.intact
  /\ m' = [elems |-> Unit(m.elems, m.size, m.N, m.cells),
           size |-> m.size \div Len(m.cells), cells |-> <<Zero3>>,
           N |-> <<>>, intact |-> FALSE, parent |-> {}]
  /\ Log([op |-> "unit"])

DoOrder(order) ==
  /\ More
  /\ m' = [m EXCEPT !.elems = Order(@, order), !.intact = FALSE, !.parent = {}]
  /\ Log([op |-> "order", order |-> order])

DoShift(lo, hi, S) ==
  /\ More
  /\ m' = [m EXCEPT !.elems = Shift(@, lo .. hi - 1, S), !.intact = FALSE,
                    !.parent = {}]
  /\ Log([op |-> "shift", lo |-> lo, hi |-> hi, S |-> S])

DoStandardize ==
  /\ More /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].op # "std")
  /\ m' = m
  /\ Log([op |-> "std"])

DoSymmetrize ==
  /\ More /\ Even(m.elems) /\ Even(m.parent)
  /\ m' = [m EXCEPT !.elems = Symmetrized(@), !.parent = Symmetrized(@)]
  /\ Log([op |-> "sym"])

Next == \/ \E M \in Matrices : DoSuper(M)
        \/ DoUnit
        \/ DoOrder([i \in 1 .. m.size |-> m.size - i])
        \/ DoOrder([i \in 1 .. m.size |-> i % m.size])
        \/ \E S \in Shifts : DoShift(0, 1, S)
        \/ DoShift(1, m.size, <<1, 1, 0>>)
        \/ DoStandardize
        \/ DoSymmetrize

Spec == Init /\ [][Next]_vars

(* ---- algebra checked in every state -------------------------------------- *)
Inverse(order) == [i \in 1 .. Len(order) |->
  (CHOOSE j \in 1 .. Len(order) : order[j] = i - 1) - 1]

WellFormed == /\ Functional(m.elems)
              /\ \A e \in m.elems : e[2] \in 0 .. m.size - 1
                                 /\ e[3] \in 0 .. m.size - 1
UnitUndoesSuper == m.intact => Unit(m.elems, m.size, m.N, m.cells) = m.parent
SuperCounts == m.intact =>
                 Cardinality(m.elems) = Len(m.cells) * Cardinality(m.parent)
OrderInvertible == LET o == [i \in 1 .. m.size |-> i % m.size]
                   IN Order(Order(m.elems, o), Inverse(o)) = m.elems
ShiftInvertible == \A S \in Shifts :
                     Shift(Shift(m.elems, {0}, S), {0}, Neg(S)) = m.elems
SymmetrizeHermitian == Even(m.elems) =>
  LET s == Symmetrized(m.elems) IN
     /\ Hermitian(s)
     /\ (Hermitian(m.elems) => s = m.elems)
(* shifting is a gauge transformation in reciprocal space *)
ShiftIsGauge == m.size <= 2 =>
  \A k \in {<<1, 2, 3>>, <<0, 1, 0>>} : \A S \in Shifts :
    LET s == Shift(m.elems, {0}, S) IN
    \A a \in 0 .. m.size - 1, b \in 0 .. m.size - 1 :
      Fourier(s, k, a, b) = CMul(Fourier(m.elems, k, a, b),
        Phase((IF a = 0 THEN Dot(k, S) ELSE 0) - (IF b = 0 THEN Dot(k, S) ELSE 0)))
(* trace of the supercell matrix at K = folded k-points: with K = 0 the sum
   over all elements of the first row block equals the primitive sum *)
GammaRowSum == m.intact =>
  LET n == m.size \div Len(m.cells) IN
  \A i \in 0 .. Len(m.cells) - 1 :
    SumRe({e \in m.elems : e[2] \div n = i}) = SumRe(m.parent)

Emit == (Emitting /\ Len(hist) = Depth) => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
