-------------------------------- MODULE Files --------------------------------
(* Layout of text files and what must be read back from them.

   Abstract contents are records of integers and of opaque numbers (strings
   with all significant digits).  A file is a sequence of lines, each a
   sequence of tokens (strings); empty lines, spacing and punctuation do not
   matter.  Encode is what is written, Canonical what is supposed to be read.
*)
EXTENDS Integers, Sequences, TLC, SequencesExt

S(i) == ToString(i)
Cat(n, f) == FlattenSeq([i \in 1 .. n |-> f[i]])
Ints(v) == [i \in 1 .. Len(v) |-> S(v[i])]

(* n tokens per line *)
Chunks(s, n) ==
  [i \in 1 .. (Len(s) + n - 1) \div n |->
     SubSeq(s, ((i - 1) * n) + 1, IF i * n > Len(s) THEN Len(s) ELSE i * n)]

Before(a, b) == \/ a[1] < b[1]
                \/ a[1] = b[1] /\ a[2] < b[2]
                \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]

(* Stable order of lattice vectors. *)
Order(R) == SortSeq([i \in 1 .. Len(R) |-> i],
  LAMBDA i, j : Before(R[i], R[j]) \/ (R[i] = R[j] /\ i < j))

(* -- Hamiltonian ------------------------------------------------------------ *)
HrLines(x) ==
  LET o == Order(x.R)
  IN <<<<S(x.size)>>, <<S(Len(x.R))>>>>
     \o Chunks([n \in 1 .. Len(o) |-> S(x.ndegen[o[n]])], 15)
     \o Cat(Len(o), [n \in 1 .. Len(o) |->
          [z \in 1 .. x.size * x.size |->
             LET b == ((z - 1) \div x.size) + 1
                 a == ((z - 1) % x.size) + 1
             IN Ints(x.R[o[n]]) \o <<S(a), S(b)>> \o x.H[o[n]][a][b]]])
HrRead(x, divide) ==
  LET o == Order(x.R)
  IN [R |-> [n \in 1 .. Len(o) |-> x.R[o[n]]],
      H |-> [n \in 1 .. Len(o) |-> IF divide THEN x.Q[o[n]] ELSE x.H[o[n]]]]

(* -- band structure ----------------------------------------------------------- *)
BandsLines(x) ==
  <<<<"&plot", "nbnd", S(Len(x.e)), "nks", S(Len(x.k)), "/">>>>
  \o Cat(Len(x.k), [i \in 1 .. Len(x.k) |->
       <<x.k[i]>> \o Chunks([n \in 1 .. Len(x.e) |-> x.e[n][i]], x.cols)])
BandsRead(x) == [k |-> x.k, e |-> x.e]

(* -- interaction --------------------------------------------------------------- *)
WmatLines(x) ==
  Cat(Len(x.R), [n \in 1 .. Len(x.R) |->
    <<Ints(x.R[n])>> \o [z \in 1 .. x.size * x.size |->
       LET a == ((z - 1) \div x.size) + 1
           b == ((z - 1) % x.size) + 1
       IN <<S(a), S(b)>> \o x.W[n][a][b]]])
WmatRead(x) == [R |-> x.R, W |-> x.W]

(* Rank five, one complex number per line. *)
BandULines(x) == [i \in 1 .. Len(x.U) |-> x.U[i]]
BandURead(x) == [U |-> x.U]

(* -- quadrupoles: xx yy zz yz xz xy of symmetric tensors --------------------------- *)
QuadLines(x) ==
  <<<<"atom", "dir", "qxx", "qyy", "qzz", "qyz", "qxz", "qxy">>>>
  \o [z \in 1 .. 3 * Len(x.Q) |->
       LET na == ((z - 1) \div 3) + 1
           i == ((z - 1) % 3) + 1
           t == x.Q[na][i]
       IN <<S(na), S(i), t[1][1], t[2][2], t[3][3], t[2][3], t[1][3], t[1][2]>>]
QuadRead(x) == [Q |-> x.Q]

(* -- functions in position space: first index fastest ------------------------------- *)
XsfLines(x) ==
  <<<<"primcoord">>, <<S(Len(x.X)), "1">>>>
  \o [i \in 1 .. Len(x.X) |-> <<x.X[i]>> \o x.tau[i]]
  \o <<<<"begin_block_datagrid_3d">>, <<"3d_field">>, <<"begin_datagrid_3d_unknown">>>>
  \o <<Ints(x.n), x.r0>> \o x.a
  \o (IF x.header THEN <<>> ELSE Chunks([z \in 1 .. x.n[1] * x.n[2] * x.n[3] |->
       LET i == (z - 1) % x.n[1]
           j == ((z - 1) \div x.n[1]) % x.n[2]
           k == (z - 1) \div (x.n[1] * x.n[2])
       IN x.data[i + 1][j + 1][k + 1]], 6))
  \o <<<<"end_datagrid_3d">>, <<"end_block_datagrid_3d">>>>
XsfRead(x) == [X |-> x.X, tau |-> x.tau, r0 |-> x.r0, a |-> x.a, n |-> x.n,
               data |-> IF x.header THEN <<>> ELSE x.data]

(* Cube format (last index fastest, steps rather than spanning vectors). *)
CubeLines(x) ==
  <<<<"title">>, <<"comment">>, <<S(Len(x.X))>> \o x.r0>>
  \o [i \in 1 .. 3 |-> <<S(x.n[i])>> \o x.step[i]]
  \o [i \in 1 .. Len(x.X) |-> <<x.X[i], "0">> \o x.tau[i]]
  \o Cat(x.n[1] * x.n[2], [z \in 1 .. x.n[1] * x.n[2] |->
       Chunks(x.data[((z - 1) \div x.n[2]) + 1][((z - 1) % x.n[2]) + 1], 6)])

(* -- lattice dynamics ------------------------------------------------------------------ *)
RECURSIVE Distinct(_, _)
Distinct(s, n) == IF n = 0 THEN <<>>
                  ELSE LET p == Distinct(s, n - 1)
                       IN IF \E i \in 1 .. Len(p) : p[i] = s[n] THEN p ELSE Append(p, s[n])

Geometry(x, title) ==
  LET T == [i \in 1 .. Len(x.atoms) |-> <<x.atoms[i].s, x.atoms[i].m>>]
      species == Distinct(T, Len(T))
      type(i) == CHOOSE t \in 1 .. Len(species) : species[t] = T[i]
  IN <<<<S(Len(species)), S(Len(x.atoms)), "0", x.alat, "0", "0", "0", "0", "0">>>>
     \o title \o x.a
     \o [t \in 1 .. Len(species) |-> <<S(t)>> \o species[t]]
     \o [i \in 1 .. Len(x.atoms) |-> <<S(i), S(type(i))>> \o x.atoms[i].p]

FlfrcLines(x) ==
  LET nat == Len(x.atoms)
  IN Geometry(x, <<>>)
     \o (IF x.eps = <<>> THEN <<<<"F">>>>
         ELSE <<IF x.alpha = "" THEN <<"T">> ELSE <<"T", x.alpha>>>> \o x.eps
              \o Cat(nat, [i \in 1 .. nat |-> <<<<S(i)>>>> \o x.Z[i]]))
     \o <<Ints(x.n)>>
     \o Cat(9 * nat * nat, [z \in 1 .. 9 * nat * nat |->
          LET j1 == ((z - 1) \div (3 * nat * nat)) + 1
              j2 == (((z - 1) \div (nat * nat)) % 3) + 1
              n1 == (((z - 1) \div nat) % nat) + 1
              n2 == ((z - 1) % nat) + 1
          IN <<<<S(j1), S(j2), S(n1), S(n2)>>>>
             \o [m \in 1 .. x.n[1] * x.n[2] * x.n[3] |->
                  LET m1 == ((m - 1) % x.n[1]) + 1
                      m2 == (((m - 1) \div x.n[1]) % x.n[2]) + 1
                      m3 == ((m - 1) \div (x.n[1] * x.n[2])) + 1
                  IN <<S(m1), S(m2), S(m3), x.C[n1][n2][m1][m2][m3][j1][j2]>>]])
FlfrcRead(x) == [atoms |-> x.atoms, alat |-> x.alat, a |-> x.a, eps |-> x.eps, Z |-> x.Z,
                 alpha |-> x.alpha, C |-> x.C]

DynLines(x) ==
  LET nat == Len(x.atoms)
  IN <<<<"dynamical", "matrix", "file">>>> \o Geometry(x, <<<<"basis", "vectors">>>>)
     \o Cat(Len(x.q), [iq \in 1 .. Len(x.q) |->
          <<<<"dynamical", "matrix", "in", "cartesian", "axes">>, <<"q">> \o x.q[iq]>>
          \o Cat(nat * nat, [z \in 1 .. nat * nat |->
               LET n1 == ((z - 1) \div nat) + 1
                   n2 == ((z - 1) % nat) + 1
               IN <<<<S(n1), S(n2)>>>> \o x.D[iq][n1][n2]])])
     \o (IF x.eps = <<>> THEN <<>>
         ELSE <<<<"dielectric", "tensor">>>> \o x.eps \o <<<<"effective", "charges">>>>
              \o Cat(nat, [i \in 1 .. nat |-> <<<<"atom", S(i)>>>> \o x.Z[i]]))
DynRead(x) == [atoms |-> x.atoms, alat |-> x.alat, a |-> x.a, eps |-> x.eps, Z |-> x.Z,
               q |-> x.q, D |-> x.D]

QListLines(x) == <<<<S(x.n), S(x.n), "1">>, <<S(Len(x.q))>>>> \o x.q
QListRead(x) == [n |-> <<x.n, x.n, 1>>, q |-> x.q]

(* -- coupling ---------------------------------------------------------------------------- *)
WignerLines(x) ==
  LET dims == Len(x.dk)
      dims2 == Len(x.dg[1])
  IN <<<<S(Len(x.Rk)), "0", S(Len(x.Rg)), S(dims), S(dims2)>>>>
     \o Cat(Len(x.Rk), [r \in 1 .. Len(x.Rk) |->
          <<Ints(x.Rk[r])>> \o [i \in 1 .. dims |-> [j \in 1 .. dims |-> S(x.dk[j][i][r])]]])
     \o Cat(Len(x.Rg), [r \in 1 .. Len(x.Rg) |->
          <<Ints(x.Rg[r])>> \o [i \in 1 .. dims |-> [n \in 1 .. dims2 |-> S(x.dg[i][n][r])]]])
(* g: nonzero elements <<Rg, x, Rk, a, b, re, im>>; G: before division *)
CouplingRead(x, divide) == [Rk |-> x.Rk, Rg |-> x.Rg, g |-> IF divide THEN x.g ELSE x.G]

(* -- arrays of any dimension: elements <<index, value>> in order -------------------------- *)
ArrayLines(x) ==
  <<Ints(x.shape) \o <<IF x.complex THEN "C" ELSE "R">>>>
  \o [i \in 1 .. Len(x.items) |-> Ints(x.items[i][1]) \o x.items[i][2]]
ArrayRead(x) == [shape |-> x.shape, complex |-> x.complex, items |-> x.items]

(* -- energies ------------------------------------------------------------------------------ *)
EigLines(x) == Cat(Len(x.e[1]), [k \in 1 .. Len(x.e[1]) |->
  [b \in 1 .. Len(x.e) |-> <<S(b), S(k), x.e[b][k]>>]])
EigRead(x) == [e |-> x.e]

Encode(kind, x) == CASE
     kind = "hr" -> HrLines(x)
  [] kind = "bands" -> BandsLines(x)
  [] kind = "wmat" -> WmatLines(x)
  [] kind = "bandU" -> BandULines(x)
  [] kind = "quad" -> QuadLines(x)
  [] kind = "xsf" -> XsfLines(x)
  [] kind = "cube" -> CubeLines(x)
  [] kind = "flfrc" -> FlfrcLines(x)
  [] kind = "dyn" -> DynLines(x)
  [] kind = "qlist" -> QListLines(x)
  [] kind = "coupling" -> WignerLines(x)
  [] kind = "array" -> ArrayLines(x)
  [] kind = "eig" -> EigLines(x)

XmlRead(x, p) ==
  [g |-> [q \in 1 .. Len(p.q) |-> [r \in 1 .. Len(p.r) |-> [k1 \in 1 .. x.nk |->
           [k2 \in 1 .. x.nk |-> [a \in 1 .. Len(p.b) |-> [b \in 1 .. Len(p.b) |->
             x.g[p.q[q] + 1][p.r[r] + 1][k1][k2][p.b[a] + 1][p.b[b] + 1]]]]]]]]

(* What is read, optionally with division by degeneracies, or only a part. *)
Canonical(kind, x, divide, pick) == CASE
     kind = "hr" -> HrRead(x, divide)
  [] kind = "bands" -> BandsRead(x)
  [] kind = "wmat" -> WmatRead(x)
  [] kind = "bandU" -> BandURead(x)
  [] kind = "quad" -> QuadRead(x)
  [] kind \in {"xsf", "cube"} -> XsfRead(x)
  [] kind = "flfrc" -> FlfrcRead(x)
  [] kind = "dyn" -> DynRead(x)
  [] kind = "qlist" -> QListRead(x)
  [] kind = "coupling" -> CouplingRead(x, divide)
  [] kind = "array" -> ArrayRead(x)
  [] kind = "eig" -> EigRead(x)
  [] kind = "xml" -> XmlRead(x, pick)
=============================================================================
