------------------------------ MODULE Outputs ------------------------------
(* What other programs print, and what has to be read from it.

   A document is a sequence of lines l with a meaning l.t and integers l.v (the
   printed decimals without point).  Long lists of numbers are broken into lines
   of limited length.  `Read` defines, kind by kind, the arrays that a reader
   returns; arrays are given with dimensions d and entries e in row-major order. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x

(* -- lists broken into lines ------------------------------------------------ *)
Pieces(s, w) == [i \in 1 .. (Len(s) + w - 1) \div w |->
                   SubSeq(s, ((i - 1) * w) + 1, IF i * w > Len(s) THEN Len(s) ELSE i * w)]

Of(doc, t) == SelectSeq(doc, LAMBDA l : l.t = t)
All(doc, t) == FlattenSeq([i \in 1 .. Len(Of(doc, t)) |-> Of(doc, t)[i].v])
Final(doc, t) == Last(Of(doc, t)).v
(* lines after the last line of meaning t (results of the last iteration)      *)
LastAt(doc, t) == CHOOSE i \in 1 .. Len(doc) : doc[i].t = t
                     /\ \A j \in i + 1 .. Len(doc) : doc[j].t # t
After(doc, t) == SubSeq(doc, LastAt(doc, t) + 1, Len(doc))

(* -- arrays ------------------------------------------------------------------ *)
RECURSIVE Size(_)
Size(d) == IF d = <<>> THEN 1 ELSE d[1] * Size(Tail(d))
RECURSIVE Spot(_, _)
Spot(d, x) == IF d = <<>> THEN 0 ELSE (x[1] * Size(Tail(d))) + Spot(Tail(d), Tail(x))
Index(d, i) == [j \in 1 .. Len(d) |->
                  ((i - 1) \div Size(SubSeq(d, j + 1, Len(d)))) % d[j]]
(* entries s of an array of dimensions d with axes in another order: axis p[j]
   of the original becomes axis j                                              *)
Permuted(s, d, p) ==
  LET q == [j \in 1 .. Len(p) |-> d[p[j]]]
  IN [i \in 1 .. Size(d) |->
        LET y == Index(q, i)
            x == [j \in 1 .. Len(d) |-> y[CHOOSE m \in 1 .. Len(p) : p[m] = j]]
        IN s[Spot(d, x) + 1]]

(* -- points on a path (steps of integer length) ------------------------------ *)
Steps(k, x) == /\ x[1] = 0
               /\ \A i \in 2 .. Len(x) :
                    LET d(j) == k[(3 * (i - 1)) + j] - k[(3 * (i - 2)) + j]
                        s == x[i] - x[i - 1]
                    IN s >= 0 /\ s * s = (d(1) * d(1)) + (d(2) * d(2)) + (d(3) * d(3))

(* -- names of states -------------------------------------------------------- *)
(* wave functions <<element, number, l, m>> (m = 0 if not given); equal names are
   numbered if there are several                                               *)
Named(s) == [i \in 1 .. Len(s) |->
  <<s[i][1],
    IF Cardinality({j \in 1 .. Len(s) : s[j] = s[i]}) = 1 THEN 0
    ELSE Cardinality({j \in 1 .. i : s[j] = s[i]}),
    s[i][2], s[i][3], s[i][4]>>]

(* -- levels, occupied if below (far from) the Fermi level, half if at it ------ *)
Filling(e, mu) == IF e < mu THEN 2 ELSE IF e > mu THEN 0 ELSE 1
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)
Total(s) == Sum(s, Len(s))

(* -- readers ------------------------------------------------------------------ *)
Pairs(s) == [i \in 1 .. Len(s) \div 2 |-> <<s[(2 * i) - 1], s[2 * i]>>]
Square(z) == (z[1] * z[1]) + (z[2] * z[2])

(* projections in the file: [k][orbital][band]                                 *)
Projections(doc, d, squared, other, one) ==
  LET z == Pairs(All(doc, "proj"))
      y == Permuted(z, <<d[1], d[3], d[2]>>, <<1, 3, 2>>)
      n == d[3]
      w(i) == LET r == (i - 1) % (n + 1)
                  m == ((i - 1) \div (n + 1)) * n
              IN IF r < n THEN Square(y[m + r + 1])
                 ELSE one - Total([a \in 1 .. n |-> Square(y[m + a])])
  IN IF ~ squared THEN FlattenSeq(y)
     ELSE IF other THEN [i \in 1 .. d[1] * d[2] * (n + 1) |-> w(i)]
     ELSE [i \in 1 .. Len(y) |-> Square(y[i])]

Projected(r) ==
  LET e == All(r.doc, "e")
      mu == IF r.fermi THEN Final(r.doc, "fermi")[1] ELSE 0
  IN [k |-> All(r.doc, "k"), e |-> [i \in 1 .. Len(e) |-> e[i] - mu],
      w |-> Projections(r.doc, r.d, r.squared, r.other, r.one)]

(* the states at point i as a set (some order of the bands)                    *)
StatesAt(a, d, n, i) ==
  {<<a.e[((i - 1) * d[2]) + b],
     SubSeq(a.w, (((((i - 1) * d[2]) + b - 1) * n) + 1), ((((i - 1) * d[2]) + b) * n))>> : b \in 1 .. d[2]}

(* couplings printed for every q and k with bands at k first, then those at k + q,
   then modes; given as [mode][k][k + q][k]                                    *)
Printed(doc, t, d) ==                    \* d = <<q, k, band, band, mode>>
  Permuted(All(doc, t), d, <<1, 5, 2, 4, 3>>)

(* Wigner-Seitz data: degeneracies [R][second][first] or as stored             *)
Binary(r) == [k |-> All(r.doc, "Rk"), nk |-> All(r.doc, "nk"), g |-> All(r.doc, "Rg"),
  ng |-> IF r.form = "new" THEN Permuted(All(r.doc, "ng"), r.d, <<3, 4, 1, 2>>)
         ELSE All(r.doc, "ng")]
Formatted(r) == [k |-> All(r.doc, "Rk"), nk |-> Permuted(All(r.doc, "nk"), r.d, <<3, 2, 1>>),
  g |-> All(r.doc, "Rg"), ng |-> Permuted(All(r.doc, "ng"), r.dg, <<2, 3, 1>>)]

(* elements of a tensor given with positions (starting from one)               *)
Element(doc, t, x) ==
  LET l == CHOOSE l \in {doc[i] : i \in 1 .. Len(doc)} : l.t = t /\ SubSeq(l.v, 1, Len(x)) = x
  IN SubSeq(l.v, Len(x) + 1, Len(l.v))
One(x) == [j \in 1 .. Len(x) |-> x[j] + 1]

Read(r) ==
  LET doc == r.doc
      d == r.d
  IN CASE r.kind = "plot" ->             \* bands one after the other; d = <<bands, points>>
          LET p == All(doc, "point")
          IN [x |-> [i \in 1 .. d[2] |-> p[(2 * i) - 1]],
              e |-> Permuted([i \in 1 .. d[1] * d[2] |-> p[2 * i]], d, <<2, 1>>)]
     [] r.kind = "corners" -> [x |-> All(doc, "corner")]
     [] r.kind = "names" -> [o |-> Named([i \in 1 .. Len(Of(doc, "state")) |-> Of(doc, "state")[i].v])]
     [] r.kind = "fermi" -> [mu |-> IF Of(doc, "fermi") = <<>> THEN <<>> ELSE Final(doc, "fermi")]
     [] r.kind = "scf" ->                \* energies relative to the last Fermi level
          LET e == All(After(doc, "end"), "e")
              mu == IF Of(doc, "fermi") = <<>> THEN 0 ELSE Final(doc, "fermi")[1]
          IN [e |-> [i \in 1 .. Len(e) |-> e[i] - mu], ne |-> Final(doc, "electrons"),
              E |-> Final(doc, "total")]
     [] r.kind = "levels" ->             \* with points, weights, and occupations
          LET e == All(After(doc, "end"), "e")
              mu == Final(doc, "fermi")[1]
              w == All(doc, "w")
              b == r.sub                 \* selected bands (starting from zero)
              at(k, n) == e[((k - 1) * d[2]) + n + 1]
          IN [e |-> e, k |-> All(doc, "k"), w |-> w, mu |-> <<mu>>, kT |-> Final(doc, "width"),
              f |-> [i \in 1 .. Len(e) |-> Filling(e[i], mu)],
              band |-> <<Total([k \in 1 .. d[1] |-> w[k] * Total([j \in 1 .. Len(b) |->
                           at(k, b[j]) * Filling(at(k, b[j]), mu)])])>>,
              half |-> <<Total([k \in 1 .. d[1] |-> w[k] * Cardinality({j \in 1 .. Len(b) :
                           at(k, b[j]) = mu})])>>]
     [] r.kind = "decay" -> [R |-> [i \in 1 .. Len(Of(doc, "pair")) |-> Of(doc, "pair")[i].v[1]],
                             H |-> [i \in 1 .. Len(Of(doc, "pair")) |-> Of(doc, "pair")[i].v[2]]]
     [] r.kind = "contributions" -> [k \in {r.keys[i] : i \in 1 .. Len(r.keys)} |-> Final(doc, k)]
     [] r.kind = "density" -> [rho |-> All(doc, "rho"), charge |-> <<Total(All(doc, "rho"))>>]
     [] r.kind = "L" -> [L |-> IF Of(doc, "L") = <<>> THEN <<>> ELSE Final(doc, "L")]
     [] r.kind = "gkk" ->
          LET n == Len(Of(doc, "row"))
              w == [i \in 1 .. n |-> Of(doc, "row")[i].v[1]]
          IN [w |-> [i \in 1 .. d[1] * d[5] |->
                      w[(((i - 1) \div d[5]) * (n \div d[1])) + ((i - 1) % d[5]) + 1]],
              g |-> Permuted([i \in 1 .. n |-> Of(doc, "row")[i].v[2]], d, <<1, 5, 2, 4, 3>>)]
     [] r.kind = "patterns" -> [u |-> FlattenSeq([i \in 1 .. Len(r.q) |->
          All(SelectSeq(doc, LAMBDA l : l.q = r.q[i]), "u")])]
     [] r.kind = "wigner" -> IF r.form = "text" THEN Formatted(r) ELSE Binary(r)
     [] r.kind = "poscar" -> [a |-> [i \in 1 .. 9 |-> Final(doc, "scale")[1] * All(doc, "a")[i]],
                              n |-> All(doc, "count"), x |-> All(doc, "atom")]
     [] r.kind = "tensor" ->             \* d = <<orbitals>>
          LET n == d[1]
              q == <<n, n, n, n>>
          IN [U |-> FlattenSeq(IF r.dd THEN [i \in 1 .. n * n |->
                      LET x == One(Index(<<n, n>>, i)) IN Element(doc, "U", <<x[1], x[1], x[2], x[2]>>)]
                    ELSE [i \in 1 .. Size(q) |-> Element(doc, "U", One(Index(q, i)))])]
     [] r.kind = "interaction" ->        \* d = <<q1, q2, q3, orbitals>>
          LET n == d[4]
              q == <<d[1], d[2], d[3]>>
              full == q \o <<n, n, n, n>>
              less == q \o <<n, n>>
          IN [U |-> FlattenSeq(IF r.dd THEN [i \in 1 .. Size(less) |->
                      LET x == Index(less, i) IN
                      Element(doc, "U", SubSeq(x, 1, 3) \o One(<<x[4], x[4], x[5], x[5]>>))]
                    ELSE [i \in 1 .. Size(full) |-> LET x == Index(full, i) IN
                      Element(doc, "U", SubSeq(x, 1, 3) \o One(<<x[5], x[4], x[7], x[6]>>))])]
     [] r.kind = "coupling" ->           \* rows <<q, k1, k2, jbnd, ibnd, nu, value...>>
          LET z == d                     \* <<q, nu, k1, k2, i, j>>
          IN [g |-> FlattenSeq([i \in 1 .. Size(z) |->
               LET x == Index(z, i)
                   y == One(x)
               IN Element(doc, "g", <<r.Q[x[1] + 1], y[3], y[4], y[6] + r.offset, y[5] + r.offset, y[2]>>)])]
     [] r.kind = "mesh" ->               \* rows <<q1, q2, k1, k2, jbnd, ibnd, nu, value...>>
          LET z == d                     \* <<q, nu, k1, k2, i, j>>
          IN [g |-> FlattenSeq([i \in 1 .. Size(z) |->
               LET x == Index(z, i)
                   y == One(x)
               IN Element(doc, "g", <<r.Q[x[1] + 1][1], r.Q[x[1] + 1][2], x[3], x[4], y[6], y[5], y[2]>>)])]
     [] r.kind = "plane" ->              \* Miller indices and coefficients
          LET m == All(doc, "miller")
              c(i, j) == m[(3 * (i - 1)) + j]
              N == Len(m) \div 3
          IN [m |-> m, c |-> All(doc, "c"),
              G |-> [i \in 1 .. 3 * N |-> LET j == ((i - 1) % 3) + 1
                                          IN r.B[j] * m[i]]]
=============================================================================
