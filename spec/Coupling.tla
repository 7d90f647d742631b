------------------------------- MODULE Coupling -------------------------------
(* Electron-phonon coupling as a set of tuples <<G, x, K, a, b, re, im>>: the
   element between orbital a in the origin cell and orbital b in cell K for
   the displacement x in cell G.                                              *)
EXTENDS Model

CKeys(c) == {<<e[1], e[2], e[3], e[4], e[5]>> : e \in c}
CFunctional(c) == Cardinality(CKeys(c)) = Cardinality(c)

RECURSIVE SumC(_)
SumC(S) == IF S = {} THEN <<0, 0>>
           ELSE LET x == CHOOSE x \in S : TRUE
                    t == SumC(S \ {x}) IN <<x[6] + t[1], x[7] + t[2]>>

(* contributions tagged by an eighth component *)
CMerge(tagged) ==
  LET All == {LET z == SumC({e \in tagged :
                    <<e[1], e[2], e[3], e[4], e[5]>> = k})
              IN <<k[1], k[2], k[3], k[4], k[5], z[1], z[2]>> : k \in CKeys(tagged)}
  IN {e \in All : e[6] # 0 \/ e[7] # 0}

CSuper(c, nph, nel, M, cells) ==
  LET V == {e[1] : e \in c} \cup {e[3] : e \in c}
      dec == [x \in V \X (1 .. Len(cells)) |->
                Decompose(Add(x[1], cells[x[2]]), cells, M)]
  IN UNION {{LET g == dec[e[1], i]
                 k == dec[e[3], i]
             IN <<g[1], (g[2] - 1) * nph + e[2], k[1], (i - 1) * nel + e[4],
                  (k[2] - 1) * nel + e[5], e[6], e[7]>> :
               i \in 1 .. Len(cells)} : e \in c}

CAdjoint(e) == <<Sub(e[1], e[3]), e[2], Neg(e[3]), e[5], e[4], e[6], -e[7]>>
CHermitian(c) == {CAdjoint(e) : e \in c} = c

CSymmetrized(c) ==
  LET both == CMerge({Append(e, 0) : e \in c} \cup
                     {Append(CAdjoint(e), 1) : e \in c})
  IN {[e EXCEPT ![6] = @ \div 2, ![7] = @ \div 2] : e \in both}
CEven(c) == \A e \in c : e[6] % 2 = 0 /\ e[7] % 2 = 0

CThreshold(c, p, q) ==
  IF c = {} THEN {} ELSE
  LET n(e) == e[6] * e[6] + e[7] * e[7]
      m == Max({n(e) : e \in c})
  IN {e \in c : q * q * n(e) >= p * p * m}

(* g(q, k) at q = q4 pi/2, k = k4 pi/2 *)
CFourier(c, q4, k4) ==
  CMerge({LET z == CMul(<<e[6], e[7]>>, Phase(Dot(e[1], q4) + Dot(e[3], k4)))
          IN <<Zero3, e[2], Zero3, e[4], e[5], z[1], z[2], <<e[1], e[3]>>>> :
            e \in c})

(* Sum contributions <<key, value, tag>> by key; zeros vanish. *)
RECURSIVE SumZ(_)
SumZ(S) == IF S = {} THEN <<0, 0>>
           ELSE LET x == CHOOSE x \in S : TRUE IN CAdd(x[2], SumZ(S \ {x}))
SumBy(tagged) ==
  {y \in {<<k, SumZ({x \in tagged : x[1] = k})>> : k \in {x[1] : x \in tagged}} :
     y[2] # <<0, 0>>}

(* g: set of <<<<x, a, b>>, z>>; matrices are sequences of rows of Gaussian
   integers; indices x, a, b from 0 *)
ToBands(g, Ukq, Uk) ==
  SumBy({<<<<y[1][1], m - 1, n - 1>>,
           CMul(CMul(Conj(Ukq[y[1][2] + 1][m]), y[2]), Uk[y[1][3] + 1][n]), y[1]>> :
           y \in g, m \in 1 .. Len(Uk[1]), n \in 1 .. Len(Uk[1])})
ToModes(g, u) ==
  SumBy({<<<<nu - 1, y[1][2], y[1][3]>>, CMul(y[2], u[y[1][1] + 1][nu]), y[1]>> :
           y \in g, nu \in 1 .. Len(u[1])})
Squares(g) == {<<y[1], <<(y[2][1] * y[2][1]) + (y[2][2] * y[2][2]), 0>>>> : y \in g}

(* Does the columns' matrix U (times sqrt(s)) diagonalise the Hermitian matrix H
   (set of <<a, b, re, im>>) with ascending distinct eigenvalues E? *)
At(H, a, b) == LET S == {x \in H : x[1] = a /\ x[2] = b}
               IN IF S = {} THEN <<0, 0>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x[3], x[4]>>
RECURSIVE Dotc(_, _, _)
Dotc(f(_), g(_), n) == IF n = 0 THEN <<0, 0>> ELSE CAdd(CMul(f(n), g(n)), Dotc(f, g, n - 1))
Diagonalises(U, E, s, H) ==
  LET n == Len(U) IN
  /\ \A m \in 1 .. n - 1 : E[m] < E[m + 1]
  /\ \A a \in 1 .. n, m \in 1 .. n :
       LET h(b) == At(H, a - 1, b - 1)
           w(b) == U[b][m]
       IN Dotc(h, w, n) = CMul(<<E[m], 0>>, U[a][m])
  /\ \A m \in 1 .. n, k \in 1 .. n :
       LET f(b) == Conj(U[b][m])
           w(b) == U[b][k]
       IN Dotc(f, w, n) = <<IF m = k THEN s ELSE 0, 0>>
=============================================================================
