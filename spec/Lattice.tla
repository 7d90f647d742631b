------------------------------- MODULE Lattice -------------------------------
(* Integer lattice geometry: vectors are sequences of integers.              *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

Zero3 == <<0, 0, 0>>
Add(u, v) == <<u[1] + v[1], u[2] + v[2], u[3] + v[3]>>
Sub(u, v) == <<u[1] - v[1], u[2] - v[2], u[3] - v[3]>>
Neg(u) == <<-u[1], -u[2], -u[3]>>
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Cross(u, v) == <<u[2] * v[3] - u[3] * v[2],
                 u[3] * v[1] - u[1] * v[3],
                 u[1] * v[2] - u[2] * v[1]>>
Scale(s, u) == <<s * u[1], s * u[2], s * u[3]>>

(* Row vector times matrix of rows M *)
Comb(s, M) == Add(Add(Scale(s[1], M[1]), Scale(s[2], M[2])), Scale(s[3], M[3]))

Det(M) == Dot(M[1], Cross(M[2], M[3]))
Vol(M) == Abs(Det(M))

(* Integer dual vectors: Dual(M)[i] . M[j] = Vol(M) if i = j else 0 *)
Dual(M) == LET s == Sgn(Det(M)) IN <<Scale(s, Cross(M[2], M[3])),
                                    Scale(s, Cross(M[3], M[1])),
                                    Scale(s, Cross(M[1], M[2]))>>

(* Is v an integer combination of the rows of M? *)
InLattice(v, M) == \A i \in 1 .. 3 : Dot(v, Dual(M)[i]) % Vol(M) = 0

(* Coefficients of lattice vector v *)
Coeff(v, M) == [i \in 1 .. 3 |-> Dot(v, Dual(M)[i]) \div Vol(M)]

(* A scalar stands for a multiple of one primitive vector. *)
Diag(n1, n2, n3) == <<<<n1, 0, 0>>, <<0, n2, 0>>, <<0, 0, n3>>>>

(* Lattice points of the half-open parallelepiped *)
Cells(M) ==
  LET D == Dual(M)
      V == Vol(M)
      Corner == {Comb(<<a, b, c>>, M) : a \in 0 .. 1, b \in 0 .. 1, c \in 0 .. 1}
      Range(i) == Min({v[i] : v \in Corner}) .. Max({v[i] : v \in Corner})
  IN {R \in {<<x, y, z>> : x \in Range(1), y \in Range(2), z \in Range(3)} :
        \A i \in 1 .. 3 : 0 <= Dot(R, D[i]) /\ Dot(R, D[i]) < V}

(* Do the vectors listed in `cells` represent every class modulo the lattice
   spanned by M exactly once, the class of the origin by the origin itself?  *)
Represent(cells, M) ==
  /\ Len(cells) = Vol(M)
  /\ \E i \in 1 .. Len(cells) : cells[i] = Zero3
  /\ LET D == Dual(M) V == Vol(M)
         Class(v) == [i \in 1 .. 3 |-> Dot(v, D[i]) % V]
     IN Cardinality({Class(cells[i]) : i \in 1 .. Len(cells)}) = Vol(M)

(* The unique decomposition of R: <<supercell lattice vector, cell index>> *)
Decompose(R, cells, M) ==
  LET D == Dual(M) V == Vol(M)
      j == CHOOSE j \in 1 .. Len(cells) :
             \A i \in 1 .. 3 : Dot(Sub(R, cells[j]), D[i]) % V = 0
  IN <<Coeff(Sub(R, cells[j]), M), j>>
=============================================================================
