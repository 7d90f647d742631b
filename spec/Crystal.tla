-------------------------------- MODULE Crystal --------------------------------
(* Bravais lattices as in Quantum ESPRESSO: conventional cell (edges a, b, c and
   cosines bc, ac, ab in units of 1 / 10) and centring (rows: primitive vectors in
   units of half conventional vectors).                                        *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Ibravs == {1, 2, 3, -3, 4, 5, -5, 6, 7, 8, 9, -9, 91, 10, 11, 12, -12, 13, -13, 14}
Cubic == {1, 2, 3, -3}
Orthogonal == {1, 2, 3, -3, 6, 7, 8, 9, -9, 91, 10, 11}

Edges(i, e) ==
  CASE i \in Cubic \cup {5, -5} -> <<e[1], e[1], e[1]>>
    [] i \in {4, 6, 7} -> <<e[1], e[1], e[3]>>
    [] OTHER -> e
Cosines(i, x) ==
  CASE i = 4 -> <<0, 0, -5>>
    [] i \in {5, -5} -> <<x[1], x[1], x[1]>>
    [] i \in {12, 13} -> <<0, 0, x[3]>>
    [] i \in {-12, -13} -> <<0, x[2], 0>>
    [] i = 14 -> x
    [] OTHER -> <<0, 0, 0>>

P == <<<<2, 0, 0>>, <<0, 2, 0>>, <<0, 0, 2>>>>
Centring(i) ==
  CASE i = 2 -> <<<<-1, 0, 1>>, <<0, 1, 1>>, <<-1, 1, 0>>>>
    [] i \in {3, 11} -> <<<<1, 1, 1>>, <<-1, 1, 1>>, <<-1, -1, 1>>>>
    [] i = -3 -> <<<<-1, 1, 1>>, <<1, -1, 1>>, <<1, 1, -1>>>>
    [] i = 7 -> <<<<1, -1, 1>>, <<1, 1, 1>>, <<-1, -1, 1>>>>
    [] i \in {9, -13} -> <<<<1, 1, 0>>, <<-1, 1, 0>>, <<0, 0, 2>>>>
    [] i = -9 -> <<<<1, -1, 0>>, <<1, 1, 0>>, <<0, 0, 2>>>>
    [] i = 91 -> <<<<2, 0, 0>>, <<0, 1, -1>>, <<0, 1, 1>>>>
    [] i = 10 -> <<<<1, 0, 1>>, <<1, 1, 0>>, <<0, 1, 1>>>>
    [] i = 13 -> <<<<1, 0, -1>>, <<0, 2, 0>>, <<1, 0, 1>>>>
    [] OTHER -> P

(* metric of the conventional cell, times 10 *)
Metric(e, x) == <<<<10 * e[1] * e[1], e[1] * e[2] * x[3], e[1] * e[3] * x[2]>>,
                  <<e[1] * e[2] * x[3], 10 * e[2] * e[2], e[2] * e[3] * x[1]>>,
                  <<e[1] * e[3] * x[2], e[2] * e[3] * x[1], 10 * e[3] * e[3]>>>>
I3 == 1 .. 3
Sum3(f) == f[1] + f[2] + f[3]
Form(G, u, v) == Sum3([i \in I3 |-> Sum3([j \in I3 |-> u[i] * G[i][j] * v[j]])])
(* metric of the primitive cell, times 40 *)
Gram(i, e, x) == LET G == Metric(Edges(i, e), Cosines(i, x))  C == Centring(i)
                 IN [m \in I3 |-> [n \in I3 |-> Form(G, C[m], C[n])]]
Det3(A) == (A[1][1] * ((A[2][2] * A[3][3]) - (A[2][3] * A[3][2])))
         - (A[1][2] * ((A[2][1] * A[3][3]) - (A[2][3] * A[3][1])))
         + (A[1][3] * ((A[2][1] * A[3][2]) - (A[2][2] * A[3][1])))
(* cells whose metric is positive definite *)
Proper(i, e, x) == LET G == Metric(<<1, 1, 1>>, Cosines(i, x)) IN Det3(G) > 0

Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
(* orientation of lattices that are not orthogonal: signs of the components
   (2: not prescribed)                                                         *)
Signs(i, x) ==
  CASE i = 4 -> <<<<1, 0, 0>>, <<-1, 1, 0>>, <<0, 0, 1>>>>
    [] i = 5 -> <<<<1, -1, 1>>, <<0, 1, 1>>, <<-1, -1, 1>>>>
    [] i = -5 -> <<<<2, 2, 2>>, <<2, 2, 2>>, <<2, 2, 2>>>>
    [] i = 12 -> <<<<1, 0, 0>>, <<Sgn(x[3]), 1, 0>>, <<0, 0, 1>>>>
    [] i = -12 -> <<<<1, 0, 0>>, <<0, 1, 0>>, <<Sgn(x[2]), 0, 1>>>>
    [] i = 13 -> <<<<1, 0, -1>>, <<Sgn(x[3]), 1, 0>>, <<1, 0, 1>>>>
    [] i = -13 -> <<<<1, 1, 0>>, <<-1, 1, 0>>, <<Sgn(x[2]), 0, 1>>>>
    [] i = 14 -> <<<<1, 0, 0>>, <<Sgn(x[3]), 1, 0>>, <<Sgn(x[2]), 2, 1>>>>

(* ---- planar reciprocal lattices: form of the angle between basis vectors ---- *)
Form2(angle, u, v) == (u * u) + (v * v) + (IF angle = 60 THEN -(u * v) ELSE IF angle = 120 THEN u * v ELSE 0)
Gs == {-2, -1, 0, 1, 2}
(* p in units of 1 / 6: corner of the Brillouin zone *)
Corner(angle, p) ==
  LET d(g) == Form2(angle, p[1] - (6 * g[1]), p[2] - (6 * g[2]))
      S == Gs \X Gs
      d0 == d(<<0, 0>>)
  IN (\A g \in S : d(g) >= d0) /\ Cardinality({g \in S : d(g) = d0}) >= 3
=============================================================================
