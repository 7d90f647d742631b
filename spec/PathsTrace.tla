------------------------------ MODULE PathsTrace ------------------------------
(* Conformance of bravais.path, GMKG, mesh, kpoints, misc.real_space_grid.    *)
EXTENDS Paths, Judge

(* corners: requested points, in units of 1 / den; k: in units of
   1 / (den unit mden); x: in units of 1e-6; moveG = move / mden               *)
OfPath(r) ==
  LET P == IF r.labels = <<>> THEN r.points ELSE
             [i \in DOMAIN r.labels |-> IF r.labels[i] = "" THEN r.points[i] ELSE Special(r.ibrav, r.labels[i])]
      m == Len(P)
      Zero(i) == \A c \in DOMAIN P[i] : P[i][c] = 0
      dup(i) == IF i > 1 /\ r.move # 0 /\ Zero(i) THEN 1 ELSE 0
      C == r.corners
      n(i) == (C[i + 1] - C[i]) - dup(i)
      u == r.unit * r.mden
      at(i, j) == C[i] + dup(i) + j + 1 \* position of point j of segment i
      raw(i, j, c) == ((j * P[i + 1][c]) + ((n(i) - j) * P[i][c])) * (u \div n(i))
      \* Gamma moves towards its neighbour on the path
      near(i, j) == IF j = 0 THEN <<i, 1>> ELSE <<i, n(i) - 1>>
      moved(i, j) == r.move # 0 /\ ((j = 0 /\ Zero(i)) \/ (j = n(i) /\ Zero(i + 1)))
      want(i, j, c) == IF ~ moved(i, j) THEN raw(i, j, c)
        ELSE raw(i, j, c) + ((r.move * raw(near(i, j)[1], near(i, j)[2], c)) \div r.mden)
      s(i) == r.x[C[i + 1] + 1] - r.x[C[i] + 1]
  IN IF Len(C) # m \/ C[1] # 0 THEN "wrong number of corners"
     ELSE IF \E i \in 1 .. m - 1 : n(i) < 1 \/ ~ Rounded(n(i), r.N, Length2(P[i + 1], P[i], r.b), r.den)
     THEN "wrong number of points"
     ELSE IF Len(r.k) # C[m] + 1 \/ Len(r.x) # Len(r.k) THEN "wrong total number of points"
     ELSE IF \E i \in 1 .. m - 1 : r.unit % n(i) # 0 THEN "machinery: unit"
     ELSE IF r.x[1] # 0 \/ \E i \in 1 .. m - 1 :
       LET q == (s(i) \div 5000) * r.den  d == 40000 * Length2(P[i + 1], P[i], r.b)
       IN \/ d > (q + (2 * r.den)) * (q + (2 * r.den))
          \/ q > 2 * r.den /\ d < (q - (2 * r.den)) * (q - (2 * r.den))
     THEN "wrong path length"
     ELSE IF \E i \in 1 .. m - 1 : \E j \in 0 .. n(i) :
       (j > 0 \/ i = 1 \/ dup(i) = 1) /\
       Abs((n(i) * (r.x[at(i, j)] - r.x[C[i] + 1])) - (j * s(i))) > 3 * n(i)
     THEN "not equally spaced"
     ELSE IF \E i \in 1 .. m - 1 : \E j \in 0 .. n(i) : \E c \in DOMAIN P[1] :
       (j > 0 \/ i = 1 \/ dup(i) = 1) /\ r.k[at(i, j)][c] # want(i, j, c)
     THEN "wrong point"
     ELSE IF r.qe # <<>> /\ (Len(r.qe) # m \/ \E i \in 1 .. m : r.qe[i].w # (IF i = m THEN 0 ELSE C[i + 1] - C[i])
       \/ r.qe[i].k # r.k[C[i] + 1])
     THEN "wrong path in QE format"
     ELSE "ok"

(* k in units of 1 / (6 unit) *)
OfGMKG(r) ==
  LET C == r.corners
      n == [i \in 1 .. 3 |-> C[i + 1] - C[i]]
      M == <<0, 3>>
      K == IF r.angle = 60 THEN <<2, 2>> ELSE <<2, 4>>
      k == IF ~ r.straight THEN K ELSE IF r.angle = 60 THEN <<-4, 2>> ELSE <<-4, -2>>
      A == << <<0, 0>>, M, k >>
      B == << M, K, <<0, 0>> >>
      L == <<577350, 333333, 666667>>
      X0 == <<0, 577350, 910684>>
      even == r.mesh /\ r.N % 6 = 0
      Third(a, p) == 2 * Abs((3 * a) - (p * r.N)) <= 3
  IN IF ~ r.indices THEN (IF r.same THEN "ok" ELSE "differs without corner indices")
     ELSE IF Len(C) # 4 \/ C[1] # 0 \/ Len(r.k) # C[4] + 1 \/ Len(r.x) # Len(r.k) THEN "wrong corners"
     ELSE IF even /\ n # <<r.N \div 2, r.N \div 6, r.N \div 3>> THEN "points not on mesh"
     ELSE IF ~ even /\ ~ (Rounded(n[1], r.N, 3, 3) /\ Third(n[2], 1) /\ Third(n[3], 2)) THEN "wrong number of points"
     ELSE IF \E i \in 1 .. 3 : \E j \in 0 .. (IF i = 3 THEN n[i] ELSE n[i] - 1) : \E c \in {1, 2} :
       r.k[C[i] + j + 1][c] * n[i] # r.unit * ((j * B[i][c]) + ((n[i] - j) * A[i][c]))
     THEN "wrong point"
     ELSE IF \E i \in 1 .. 3 : \E j \in 0 .. (IF i = 3 THEN n[i] ELSE n[i] - 1) :
       Abs(((r.x[C[i] + j + 1] - X0[i]) * n[i]) - (j * L[i])) > 3 * n[i]
     THEN "wrong path length" ELSE "ok"

(* point number i (from 0) of a mesh n, as integers in units of 1 / n *)
RECURSIVE Volume(_)
Volume(n) == IF n = <<>> THEN 1 ELSE Head(n) * Volume(Tail(n))
Digit(i, n, x) == (i \div Volume(SubSeq(n, x + 1, Len(n)))) % n[x]
OfMesh(r) ==
  IF r.shape # (IF r.flat THEN <<Volume(r.n)>> ELSE r.n) \o <<Len(r.n)>> THEN "wrong shape"
  ELSE IF Len(r.got) # Volume(r.n) THEN "wrong size"
  ELSE IF \E i \in DOMAIN r.got : \E x \in DOMAIN r.n :
    r.got[i][x] # Digit(i - 1, r.n, x) * (r.unit \div r.n[x]) THEN "wrong point" ELSE "ok"
OfKpoints(r) ==
  IF r.total # Volume(r.n) \/ Len(r.got) # r.total THEN "wrong number of points"
  ELSE IF \E i \in DOMAIN r.got : Len(r.got[i]) # (IF r.weights THEN 4 ELSE 3)
    \/ \E x \in 1 .. 3 : r.got[i][x] # Digit(i - 1, r.n, x) * (r.unit \div r.n[x])
  THEN "wrong point"
  ELSE IF r.weights /\ \E i \in DOMAIN r.got : r.got[i][4] # r.unit \div r.total THEN "wrong weight" ELSE "ok"
(* corners included: steps a / (n - 1); in units of 1 / unit *)
OfGrid(r) ==
  IF Len(r.got) # Volume(r.n) THEN "wrong size"
  ELSE IF \E i \in DOMAIN r.got : \E x \in 1 .. 3 :
    r.got[i][x] # (r.unit * r.r0[x]) + FoldSet(LAMBDA y, acc : acc +
      (IF r.n[y] = 1 THEN 0 ELSE Digit(i - 1, r.n, y) * (r.unit \div (r.n[y] - 1)) * r.a[y][x]), 0, 1 .. 3)
  THEN "wrong point" ELSE "ok"

Verdict(r) ==
  IF r.exc # "" THEN "raised " \o r.exc
  ELSE CASE r.kind = "path" -> OfPath(r)
         [] r.kind = "GMKG" -> OfGMKG(r)
         [] r.kind = "mesh" -> OfMesh(r)
         [] r.kind = "kpoints" -> OfKpoints(r)
         [] r.kind = "grid" -> OfGrid(r)
=============================================================================
