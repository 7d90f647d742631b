------------------------------- MODULE Symmetry -------------------------------
(* Point symmetry of two-dimensional reciprocal meshes: nk x nk points whose
   axes include an angle of 60, 90 or 120 degrees.  Operations are a rotation
   by a multiple of the smallest angle, optionally followed by the reflection
   that keeps the second axis.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Turn(angle) == IF angle = 90 THEN 90 ELSE 60
Rot1(angle, k) == CASE angle = 60 -> <<-k[2], k[1] + k[2]>>
                    [] angle = 90 -> <<-k[2], k[1]>>
                    [] angle = 120 -> <<k[1] - k[2], k[1]>>
RECURSIVE Rot(_, _, _)
Rot(angle, n, k) == IF n = 0 THEN k ELSE Rot1(angle, Rot(angle, n - 1, k))
Refl(angle, k) == CASE angle = 60 -> <<-k[1], k[1] + k[2]>>
                    [] angle = 90 -> <<-k[1], k[2]>>
                    [] angle = 120 -> <<-k[1], k[2] - k[1]>>
Orders(angle) == 0 .. (360 \div Turn(angle)) - 1
Ops(angle) == BOOLEAN \X Orders(angle)
Apply(angle, op, k) == IF op[1] THEN Refl(angle, Rot(angle, op[2], k)) ELSE Rot(angle, op[2], k)
Fold(k, nk) == <<k[1] % nk, k[2] % nk>>
Mesh(nk) == (0 .. nk - 1) \X (0 .. nk - 1)
Orbit(angle, k, nk) == {Fold(Apply(angle, op, k), nk) : op \in Ops(angle)}
(* squared length, in units where both axes have length one (times two) *)
Length2(angle, k) == (2 * k[1] * k[1]) + (2 * k[2] * k[2]) +
  (k[1] * k[2] * (CASE angle = 60 -> 2 [] angle = 90 -> 0 [] angle = 120 -> -2))

Earlier(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Irreducible(angle, nk) == {k \in Mesh(nk) :
  \A p \in Orbit(angle, k, nk) : p = k \/ Earlier(k, p)}

(* is op a symmetry of the (partial) data d on the mesh? *)
Fulfils(angle, nk, op, d, eps) == \A k \in DOMAIN d :
  LET p == Fold(Apply(angle, op, k), nk)
      x == IF p \in DOMAIN d THEN d[k] - d[p] ELSE 0
  IN (IF x < 0 THEN -x ELSE x) <= eps

(* order in which symmetries are listed: rotations, then reflected rotations *)
OpList(angle) == [i \in 1 .. 2 * (360 \div Turn(angle)) |->
  LET n == 360 \div Turn(angle) IN <<i > n, (i - 1) % n>>]

(* twice the cosine of 2 pi j / n *)
TwoCos(j, n) == LET i == j % n IN
  CASE n = 1 -> 2
    [] n = 2 -> <<2, -2>>[i + 1]
    [] n = 3 -> <<2, -1, -1>>[i + 1]
    [] n = 4 -> <<2, 0, -2, 0>>[i + 1]
    [] n = 6 -> <<2, 1, -1, -2, -1, 1>>[i + 1]

(* symmetric band: sum over shells <<c, R1, R2>> and operations *)
RECURSIVE SumOps(_, _, _, _, _), Band(_, _, _, _)
SumOps(angle, S, R, k, n) == IF S = {} THEN 0 ELSE
  LET op == CHOOSE op \in S : TRUE
      p == Apply(angle, op, k)
  IN TwoCos((R[2] * p[1]) + (R[3] * p[2]), n) + SumOps(angle, S \ {op}, R, k, n)
Band(angle, shells, k, n) == IF shells = <<>> THEN 0 ELSE
  (Head(shells)[1] * SumOps(angle, Ops(angle), Head(shells), k, n))
    + Band(angle, Tail(shells), k, n)
=============================================================================
