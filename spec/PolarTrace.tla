----------------------------- MODULE PolarTrace -----------------------------
(* Supercells of couplings with long-range terms, fixed-point arithmetic.      *)
EXTENDS Integers, Sequences, Judge

(* lr[x]: long-range coupling to displacement x of the supercell, the same for
   all orbitals; short: sum of localized elements; got: what is evaluated      *)
Close(x, y) == x - y \in -3 .. 3
WithLongRange(got, short, lr) ==
  \A x \in 1 .. Len(short) : \A a, b \in 1 .. Len(short[x]) : \A c \in 1 .. 2 :
    Close(got[x][a][b][c], short[x][a][b][c] + (IF a = b THEN lr[x][c] ELSE 0))
OfPolar(r) ==
  IF r.exc # "" THEN "raised " \o r.exc
  ELSE IF ~ \E x \in 1 .. Len(r.lr) : r.lr[x] # <<0, 0>> THEN "no long-range coupling"
  ELSE IF ~ WithLongRange(r.dense, r.short, r.lr) THEN "coupling of supercell"
  ELSE IF ~ WithLongRange(r.sparse, r.gamma, r.lr0) THEN "sparse coupling of supercell"
  ELSE "ok"
=============================================================================
