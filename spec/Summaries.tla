----------------------------- MODULE Summaries -----------------------------
(* Summaries of localized models: how elements decay with distance, how large
   they are altogether, frequencies belonging to force constants.

   Distances and moduli are squared, so that integers remain integers.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

I3 == 1 .. 3
Abs(x) == IF x < 0 THEN -x ELSE x

RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
Sum(s) == SumTo(s, Len(s))
Norm2(v) == (v[1] * v[1]) + (v[2] * v[2]) + (v[3] * v[3])

(* a: lattice vectors                                                          *)
Span(R, a) == [x \in I3 |-> Sum([i \in I3 |-> R[i] * a[i][x]])]
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
(* squared moduli of elements <<re, im>>                                       *)
Largest2(s) == Max({0} \cup {(s[i][1] * s[i][1]) + (s[i][2] * s[i][2]) : i \in 1 .. Len(s)})

RECURSIVE Select(_, _)
Select(s, n) == IF n = 0 THEN <<>>
                ELSE Select(s, n - 1) \o (IF s[n][2] = 0 THEN <<>> ELSE <<s[n]>>)
Nonzero(s) == Select(s, Len(s))

(* one entry <<distance, size>> per lattice vector with blocks B               *)
Profile(R, B, a) == [n \in 1 .. Len(R) |-> <<Norm2(Span(R[n], a)), Largest2(B[n])>>]

RECURSIVE FlatTo(_, _)
FlatTo(s, n) == IF n = 0 THEN <<>> ELSE FlatTo(s, n - 1) \o s[n]
Flat(s) == FlatTo(s, Len(s))

(* C[n][k][l]: nine elements of the force constants between atom k in the
   first and atom l in the n-th cell; one entry per bond                        *)
Bonds(R, C, a, r) == Nonzero(Flat([n \in 1 .. Len(R) |-> Flat([k \in 1 .. Len(r) |->
    [l \in 1 .. Len(r) |->
        << Norm2([x \in I3 |-> Span(R[n], a)[x] + r[l][x] - r[k][x]]),
           Sum([i \in 1 .. 9 |-> C[n][k][l][i] * C[n][k][l][i]]) >>]])]))

(* sizes of all elements apart from those of atoms with themselves             *)
Strength(R, C, nat) ==
    Sum([n \in 1 .. Len(R) |-> Sum([k \in 1 .. nat |-> Sum([l \in 1 .. nat |->
        IF k = l /\ R[n] = <<0, 0, 0>> THEN 0
        ELSE Sum([i \in 1 .. 9 |-> Abs(C[n][k][l][i])])])])])

Count(s, e) == Cardinality({i \in 1 .. Len(s) : s[i] = e})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A i \in 1 .. Len(s) : Count(s, s[i]) = Count(t, s[i])

Ascending(s) == \A i \in 1 .. Len(s) - 1 : s[i] <= s[i + 1]
Sorted(s, t) == Ascending(t) /\ SameBag(s, t)
=============================================================================
