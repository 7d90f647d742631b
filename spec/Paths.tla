--------------------------------- MODULE Paths ---------------------------------
(* Paths through the Brillouin zone.  Corners are integer vectors in units of
   1 / den; b are integer reciprocal lattice vectors (rows).                  *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Sq(_)
Sq(v) == IF v = <<>> THEN 0 ELSE (Head(v) * Head(v)) + Sq(Tail(v))
Cart(p, b) == [x \in DOMAIN b[1] |-> FoldSet(LAMBDA i, acc : acc + (p[i] * b[i][x]), 0, DOMAIN p)]
Diff(p, q) == [i \in DOMAIN p |-> p[i] - q[i]]
(* squared length in units of 1 / den^2 *)
Length2(p, q, b) == Sq(Cart(Diff(p, q), b))

(* n is density * sqrt(d2) / den, rounded, or one if this is zero *)
Rounded(n, density, d2, den) ==
  LET t == 4 * density * density * d2 IN
  /\ n >= 1
  /\ n = 1 \/ ((2 * n) - 1) * ((2 * n) - 1) * den * den <= t
  /\ t <= ((2 * n) + 1) * ((2 * n) + 1) * den * den

(* special points in units of 1 / 24 *)
Labels(ibrav) ==
  CASE ibrav = 1 -> [M |-> <<0, 12, 12>>, R |-> <<12, 12, 12>>, X |-> <<0, 0, 12>>]
    [] ibrav = 2 -> [X |-> <<0, 12, 12>>, L |-> <<12, 12, 12>>, W |-> <<6, 18, 12>>, U |-> <<6, 15, 15>>, K |-> <<9, 18, 9>>]
    [] ibrav = 3 -> [H |-> <<12, 12, 12>>, P |-> <<18, 6, -6>>, N |-> <<12, 12, 0>>]
    [] ibrav = -3 -> [H |-> <<12, 12, -12>>, P |-> <<6, 6, 6>>, N |-> <<12, 0, 0>>]
    [] ibrav = 4 -> [A |-> <<0, 0, 12>>, M |-> <<0, 12, 0>>, L |-> <<0, 12, 12>>, K |-> <<8, 8, 0>>, H |-> <<8, 8, 12>>]
    [] ibrav = 6 -> [X |-> <<12, 0, 0>>, M |-> <<12, 12, 0>>, Z |-> <<0, 0, 12>>, R |-> <<12, 0, 12>>, A |-> <<12, 12, 12>>]
    [] ibrav = 7 -> [X |-> <<6, 6, -6>>, M |-> <<0, 12, -12>>, Z |-> <<6, 6, 6>>, R |-> <<12, 12, 0>>, A |-> <<6, 18, -6>>]
    [] ibrav = 8 -> [X |-> <<12, 0, 0>>, Y |-> <<0, 12, 0>>, Z |-> <<0, 0, 12>>, S |-> <<12, 12, 0>>, T |-> <<0, 12, 12>>, U |-> <<12, 0, 12>>, R |-> <<12, 12, 12>>]
    [] ibrav = 9 -> [Y |-> <<12, -12, 0>>, y |-> <<12, 12, 0>>, Z |-> <<0, 0, 12>>, T |-> <<12, -12, 12>>, t |-> <<12, 12, 12>>, S |-> <<12, 0, 0>>, R |-> <<12, 0, 12>>]
    [] ibrav = -9 -> [Y |-> <<12, 12, 0>>, y |-> <<-12, 12, 0>>, Z |-> <<0, 0, 12>>, T |-> <<12, 12, 12>>, t |-> <<-12, 12, 12>>, S |-> <<0, 12, 0>>, R |-> <<0, 12, 12>>]
    [] ibrav \in {12, -12} -> [B |-> <<-12, 0, 0>>, Y |-> <<0, 12, 0>>, Z |-> <<0, 0, 12>>, D |-> <<-12, 12, 0>>, C |-> <<0, 12, 12>>, A |-> <<-12, 0, 12>>, E |-> <<-12, 12, 12>>]
    [] OTHER -> [G |-> <<0, 0, 0>>]
Special(ibrav, l) == IF l = "G" THEN <<0, 0, 0>> ELSE Labels(ibrav)[l]
=============================================================================
