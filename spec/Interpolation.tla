----------------------------- MODULE Interpolation -----------------------------
(* Linear interpolation on periodic meshes.  Arguments are fractions x / s; a
   corner <<n, m, w>> is a mesh point relative to the lower corner of the cell
   and its weight times s^2 (one dimension: m = 0).                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Corners(angle, x, y, s) ==
  LET a == x % s  b == y % s IN
  CASE angle = 0 -> {<<0, 0, (s - a) * s>>, <<1, 0, a * s>>}
    [] angle = 60 -> IF a + b > s
         THEN {<<1, 0, (s - b) * s>>, <<0, 1, (s - a) * s>>, <<1, 1, ((a + b) - s) * s>>}
         ELSE {<<1, 0, a * s>>, <<0, 1, b * s>>, <<0, 0, (s - (a + b)) * s>>}
    [] angle = 90 -> {<<0, 0, (s - a) * (s - b)>>, <<1, 0, a * (s - b)>>,
                      <<1, 1, a * b>>, <<0, 1, (s - a) * b>>}
    [] angle = 120 -> IF a > b
         THEN {<<0, 0, (s - a) * s>>, <<1, 1, b * s>>, <<1, 0, (a - b) * s>>}
         ELSE {<<0, 0, (s - b) * s>>, <<1, 1, a * s>>, <<0, 1, (b - a) * s>>}

RECURSIVE SumSecond(_)
SumSecond(S) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE
                                      IN c[2] + SumSecond(S \ {c})
SumW(S, f(_)) == SumSecond({<<c, f(c)>> : c \in S})

(* s^2 times the interpolated value; value(n, m) of the periodic data *)
Linear(angle, x, y, s, value(_, _)) ==
  LET n == x \div s  m == y \div s
  IN SumW(Corners(angle, x, y, s), LAMBDA c : c[3] * value(n + c[1], m + c[2]))

(* ---- stacking on a periodic axis ---------------------------------------- *)
RECURSIVE SeqSum(_)
SeqSum(q) == IF q = <<>> THEN 0 ELSE Head(q) + SeqSum(Tail(q))
Square(q) == [i \in DOMAIN q |-> q[i] * q[i]]
Variance(q) == (Len(q) * SeqSum(Square(q))) - (SeqSum(q) * SeqSum(q)) \* times n^2
Shifts(q, P) == {TLCEval([i \in DOMAIN q |-> (q[i] % P) + (P * t[i])]) :
                   t \in [DOMAIN q -> 0 .. 1]}
Stackings(q, P) ==
  LET var == TLCEval({<<Variance(p), p>> : p \in Shifts(q, P)})
      m == CHOOSE x \in var : \A p \in var : x[1] <= p[1]
  IN {p[2] : p \in {p \in var : p[1] = m[1]}}

(* possible interpolated values on an axis of period P, modulo P s^2 *)
LinearMod(angle, x, y, s, value(_, _), P) ==
  LET n == x \div s  m == y \div s
      C == Corners(angle, x, y, s)
      \* every corner's value; corners as a sequence in arbitrary order
      q == TLCEval(SetToSeq(C))
      v == TLCEval([i \in DOMAIN q |-> value(n + q[i][1], m + q[i][2])])
  IN {SeqSum([i \in DOMAIN q |-> q[i][3] * p[i]]) % (P * s * s) : p \in Stackings(v, P)}
=============================================================================
