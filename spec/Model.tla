-------------------------------- MODULE Model --------------------------------
(* Localized models as sets of matrix elements.

   A model has `size` orbitals (or displacements) per cell and a set `elems` of
   tuples <<R, a, b, re, im>>: the nonzero element between orbital a in the
   origin cell and orbital b in cell R (indices from 0, Gaussian integers).   *)
EXTENDS Lattice

Rows(elems) == {e[1] : e \in elems}

(* All lattice vectors listed once, entries nonzero: required of raw data
   before it is compared as a set. *)
Keys(elems) == {<<e[1], e[2], e[3]>> : e \in elems}
Functional(elems) == Cardinality(Keys(elems)) = Cardinality(elems)

(* Sum of a finite set of tuples' components (a CHOOSE-recursion). *)
RECURSIVE SumRe(_), SumIm(_)
SumRe(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE
                                  IN x[4] + SumRe(S \ {x})
SumIm(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE
                                  IN x[5] + SumIm(S \ {x})

(* Merge contributions that carry a distinguishing sixth component. *)
Merge(tagged) ==
  LET K == {<<e[1], e[2], e[3]>> : e \in tagged}
      All == {LET S == {e \in tagged : <<e[1], e[2], e[3]>> = k}
              IN <<k[1], k[2], k[3], SumRe(S), SumIm(S)>> : k \in K}
  IN {e \in All : e[4] # 0 \/ e[5] # 0}

(* ---- transformations ---------------------------------------------------- *)

(* Supercell spanned by M with the given list of cells: the element between
   two supercell sites is the primitive element between these sites. *)
Super(elems, size, M, cells) ==
  LET dec == [x \in Rows(elems) \X (1 .. Len(cells)) |->
                Decompose(Add(x[1], cells[x[2]]), cells, M)]
  IN UNION {LET d == [i \in 1 .. Len(cells) |-> dec[e[1], i]]
            IN {<<d[i][1], (i - 1) * size + e[2], (d[i][2] - 1) * size + e[3],
                  e[4], e[5]>> : i \in 1 .. Len(cells)} : e \in elems}

(* Back to the unit cell: all elements from the sites of the origin cell. *)
Unit(elems, size, M, cells) ==
  LET n == size \div Len(cells)
      o == CHOOSE i \in 1 .. Len(cells) : cells[i] = Zero3
  IN {<<Add(Comb(e[1], M), cells[e[3] \div n + 1]), e[2] % n, e[3] % n,
        e[4], e[5]>> : e \in {e \in elems : e[2] \div n = o - 1}}

(* New orbital i is old orbital order[i + 1]. *)
Order(elems, order) ==
  LET new == [o \in {order[i] : i \in 1 .. Len(order)} |->
                (CHOOSE i \in 1 .. Len(order) : order[i] = o) - 1]
  IN {<<e[1], new[e[2]], new[e[3]], e[4], e[5]>> : e \in elems}

(* Orbitals in the set sel are moved by the lattice vector S: what used to be
   called (R, b) is now called (R - S, b). *)
Shift(elems, sel, S) ==
  {<<Sub(IF e[2] \in sel THEN Add(e[1], S) ELSE e[1],
         IF e[3] \in sel THEN S ELSE Zero3),
     e[2], e[3], e[4], e[5]>> : e \in elems}

(* Hermitian part (data are kept even so that halves are integers). *)
Symmetrized(elems) ==
  LET both == Merge({<<e[1], e[2], e[3], e[4], e[5], 0>> : e \in elems} \cup
                    {<<Neg(e[1]), e[3], e[2], e[4], -e[5], 1>> : e \in elems})
  IN {<<e[1], e[2], e[3], e[4] \div 2, e[5] \div 2>> : e \in both}

Even(elems) == \A e \in elems : e[4] % 2 = 0 /\ e[5] % 2 = 0
Hermitian(elems) == {<<Neg(e[1]), e[3], e[2], e[4], -e[5]>> : e \in elems} = elems

(* Relative threshold p/q on the modulus. *)
Norm2(e) == e[4] * e[4] + e[5] * e[5]
Threshold(elems, p, q) ==
  IF elems = {} THEN {} ELSE
  LET m == Max({Norm2(e) : e \in elems})
  IN {e \in elems : q * q * Norm2(e) >= p * p * m}

(* Lexicographic order of lattice vectors *)
Less(u, v) == \/ u[1] < v[1]
              \/ u[1] = v[1] /\ u[2] < v[2]
              \/ u[1] = v[1] /\ u[2] = v[2] /\ u[3] < v[3]
Sorted(rows) == \A i \in 1 .. Len(rows) - 1 : Less(rows[i], rows[i + 1])
Distinct(rows) == Cardinality({rows[i] : i \in 1 .. Len(rows)}) = Len(rows)

(* ---- Fourier sums at k = k4 * pi/2 (Gaussian integers) ------------------- *)
Phase(n) == CASE n % 4 = 0 -> <<1, 0>> [] n % 4 = 1 -> <<0, 1>>
              [] n % 4 = 2 -> <<-1, 0>> [] n % 4 = 3 -> <<0, -1>>
CMul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
CAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Conj(x) == <<x[1], -x[2]>>

(* sum over R of element (a, b) times exp(i k R) *)
Fourier(elems, k4, a, b) ==
  LET T == {LET z == CMul(<<e[4], e[5]>>, Phase(Dot(e[1], k4)))
            IN <<e[1], e[2], e[3], z[1], z[2]>> :
              e \in {e \in elems : e[2] = a /\ e[3] = b}}
  IN <<SumRe(T), SumIm(T)>>

(* value of the lattice sum at k = k6 pi/3 for real data: <<a, b>> stands for
   a + b exp(i pi/3) *)
Phase6(n) == CASE n % 6 = 0 -> <<1, 0>> [] n % 6 = 1 -> <<0, 1>>
               [] n % 6 = 2 -> <<-1, 1>> [] n % 6 = 3 -> <<-1, 0>>
               [] n % 6 = 4 -> <<0, -1>> [] n % 6 = 5 -> <<1, -1>>
Fourier6(elems, k6) ==
  {x \in {LET T == {LET z == Phase6(Dot(e[1], k6))
                    IN <<e[1], e[2], e[3], e[4] * z[1], e[4] * z[2]>> :
                     e \in {e \in elems : e[2] = y[1] /\ e[3] = y[2]}}
          IN <<y[1], y[2], SumRe(T), SumIm(T)>> :
            y \in {<<e[2], e[3]>> : e \in elems}} : x[3] # 0 \/ x[4] # 0}

(* derivative along x of the lattice sum *)
Velocity(elems, k4, x) ==
  {<<x - 1, y[2], y[3], y[4], y[5]>> : y \in
    Merge({LET z == CMul(CMul(<<e[4], e[5]>>, <<0, e[1][x]>>), Phase(Dot(e[1], k4)))
           IN <<Zero3, e[2], e[3], z[1], z[2], e[1]>> : e \in elems})}

FourierSet(elems, size, k4) ==
  {x \in {LET z == Fourier(elems, k4, a, b) IN <<a, b, z[1], z[2]>> :
            a \in 0 .. size - 1, b \in 0 .. size - 1} : x[3] # 0 \/ x[4] # 0}
=============================================================================
