---------------------------- MODULE Predefined ----------------------------
(* Predefined model systems (chain, graphene, 1H-TaS2): lattices with their
   symmetries, and what these require of hoppings, force constants, Coulomb
   interactions, and electron-phonon couplings.

   Positions are triples of integers, in thirds of the lattice vectors.  Pairs
   of sites are keyed by <<R, a, b>> (b in cell R, a in cell 0), couplings by
   <<s, G, K, a, b>> (atom s in cell G is displaced, orbitals as for pairs).
   Blocks of elements are matrices <<re, im>> of integers; the blocks of
   couplings are one matrix per direction of the displacement.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
I3 == 1 .. 3

RECURSIVE SumSeq(_, _)
SumSeq(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumSeq(s, n - 1)
Sum(s) == SumSeq(s, Len(s))

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})

(* ---- lattices and their symmetries --------------------------------------- *)

Crystals == [
    chain |-> [pos |-> << <<0, 0, 0>> >>, orb |-> <<1>>, dim |-> 1,
        gens |-> {"mx", "my", "mz", "xc"}, kinds |-> <<1>>],
    graphene |-> [pos |-> << <<2, 1, 0>>, <<1, 2, 0>> >>, orb |-> <<1, 2>>, dim |-> 1,
        gens |-> {"c3", "sx", "c2", "mz"}, kinds |-> <<1, 1>>],
    (* height of the chalcogen atoms: any fraction                            *)
    tas2 |-> [pos |-> << <<1, 2, 0>>, <<2, 1, 1>>, <<2, 1, -1>> >>, orb |-> <<1>>, dim |-> 3,
        gens |-> {"c3", "sx", "mz"}, kinds |-> <<1, 2, 2>>]]

(* action on the coefficients of the lattice vectors (hexagonal ones at 120
   degrees)                                                                   *)
Act(g, v) ==
    CASE g = "c3" -> <<-v[2], v[1] - v[2], v[3]>>      \* a1 -> a2 -> -a1 - a2
      [] g = "sx" -> <<v[2] - v[1], v[2], v[3]>>       \* x -> -x
      [] g = "c2" -> <<-v[1], -v[2], v[3]>>
      [] g = "mx" -> <<-v[1], v[2], v[3]>>
      [] g = "my" -> <<v[1], -v[2], v[3]>>
      [] g = "mz" -> <<v[1], v[2], -v[3]>>
      [] g = "xc" -> <<v[1], v[3], v[2]>>

N == 16384                                             \* unit of matrices
S == 14189                                             \* sin 60 degrees
H == 8192                                              \* cos 60 degrees

Diag(a, b, c) == << <<a, 0, 0>>, <<0, b, 0>>, <<0, 0, c>> >>
(* the same for Cartesian vectors, in units of 1/N                            *)
Vector(g) ==
    CASE g = "c3" -> << <<-H, -S, 0>>, <<S, -H, 0>>, <<0, 0, N>> >>
      [] g \in {"sx", "mx"} -> Diag(-N, N, N)
      [] g = "c2" -> Diag(-N, -N, N)
      [] g = "my" -> Diag(N, -N, N)
      [] g = "mz" -> Diag(N, N, -N)
      [] g = "xc" -> << <<N, 0, 0>>, <<0, 0, N>>, <<0, N, 0>> >>

(* for orbitals: one of them invariant (up to a common sign), or z2, x2-y2, xy *)
Orbital(g, d) ==
    IF d = 1 THEN << <<N>> >>
    ELSE CASE g = "c3" -> << <<N, 0, 0>>, <<0, -H, S>>, <<0, -S, -H>> >>
           [] g = "sx" -> Diag(N, N, -N)
           [] OTHER -> Diag(N, N, N)

Plus(v, w) == [i \in I3 |-> v[i] + w[i]]
Minus(v, w) == [i \in I3 |-> v[i] - w[i]]
Neg(v) == [i \in I3 |-> -v[i]]
Place(pos, s, R) == [i \in I3 |-> pos[s][i] + (3 * R[i])]

(* <<site, cell>> of the image of site s in cell R; <<>> if there is none      *)
Image(pos, g, s, R) ==
    LET p == Act(g, Place(pos, s, R))
        T == {t \in 1 .. Len(pos) : \A i \in I3 : (p[i] - pos[t][i]) % 3 = 0}
    IN IF Cardinality(T) # 1 THEN <<>>
       ELSE LET t == CHOOSE t \in T : TRUE
            IN <<t, [i \in I3 |-> (p[i] - pos[t][i]) \div 3]>>

IsSymmetry(pos, kinds, g) == \A s \in 1 .. Len(pos) :
    LET w == Image(pos, g, s, <<0, 0, 0>>) IN w # <<>> /\ kinds[w[1]] = kinds[s]

PairImage(pos, g, k) ==
    LET a == Image(pos, g, k[2], <<0, 0, 0>>)
        b == Image(pos, g, k[3], k[1])
    IN << Minus(b[2], a[2]), a[1], b[1] >>

TripleImage(pos, orb, g, k) ==
    LET a == Image(orb, g, k[4], <<0, 0, 0>>)
        b == Image(orb, g, k[5], k[3])
        s == Image(pos, g, k[1], k[2])
    IN << s[1], Minus(s[2], a[2]), Minus(b[2], a[2]), a[1], b[1] >>

PairAdjoint(k) == << Neg(k[1]), k[3], k[2] >>
TripleAdjoint(k) == << k[1], Minus(k[2], k[3]), Neg(k[3]), k[5], k[4] >>

(* ---- blocks ----------------------------------------------------------------- *)

Zeros(m) == [i \in 1 .. m |-> [j \in 1 .. m |-> 0]]
Null(m) == << Zeros(m), Zeros(m) >>
Get(F, k, m) == IF k \in DOMAIN F THEN F[k] ELSE Null(m)
GetAll(F, k, m) == IF k \in DOMAIN F THEN F[k] ELSE [x \in I3 |-> Null(m)]

(* U M U^T, elements of U in units of 1/n                                      *)
Turn(U, M, n) ==
    LET d == 1 .. Len(M)
        L == TLCEval([i \in d |-> [j \in d |-> Sum([l \in d |-> U[i][l] * M[l][j]]) \div n]])
    IN [i \in d |-> [j \in d |-> Sum([l \in d |-> L[i][l] * U[j][l]]) \div n]]
TurnBlock(U, B, n) == << Turn(U, B[1], n), Turn(U, B[2], n) >>

(* sum over directions y of V[x][y] B[y]                                       *)
TurnVector(V, Bs, n) == [x \in I3 |-> [c \in 1 .. 2 |->
    [i \in 1 .. Len(Bs[1][1]) |-> [j \in 1 .. Len(Bs[1][1]) |->
        Sum([y \in I3 |-> V[x][y] * Bs[y][c][i][j]]) \div n]]]]

Adjoint(B) == LET d == 1 .. Len(B[1])
    IN << [i \in d |-> [j \in d |-> B[1][j][i]]], [i \in d |-> [j \in d |-> -B[2][j][i]]] >>

Close(A, B, tol) == \A c \in 1 .. 2 : \A i, j \in 1 .. Len(A[1]) : Abs(A[c][i][j] - B[c][i][j]) <= tol
CloseAll(A, B, tol) == \A x \in I3 : Close(A[x], B[x], tol)

(* ---- properties of pairs --------------------------------------------------- *)

HermitianPairs(F, m, tol) == \A k \in DOMAIN F : Close(Adjoint(F[k]), Get(F, PairAdjoint(k), m), tol)

SymmetricPairs(F, pos, gens, m, U(_), n, tol) == \A g \in gens :
    LET u == TLCEval(U(g)) IN \A k \in DOMAIN F :
        Close(TLCEval(TurnBlock(u, F[k], n)), Get(F, PairImage(pos, g, k), m), tol)

RealPairs(F, tol) == \A k \in DOMAIN F : \A i, j \in 1 .. Len(F[k][1]) : Abs(F[k][2][i][j]) <= tol

(* rigid translations exert no forces                                          *)
AcousticPairs(F, sites, m, tol) == \A a \in 1 .. sites : \A i, j \in 1 .. m : \A c \in 1 .. 2 :
    LET K == {k \in DOMAIN F : k[2] = a}
    IN Abs(SumOver([k \in K |-> F[k][c][i][j]], K)) <= tol

(* squared distance in a hexagonal lattice                                     *)
Length(pos, k) == LET d == Minus(Place(pos, k[3], k[1]), pos[k[2]])
                  IN (d[1] * d[1]) + (d[2] * d[2]) - (d[1] * d[2])
(* repulsion that decreases with distance                                      *)
Decreasing(F, pos, tol) == \A k, l \in DOMAIN F :
    /\ F[k][1][1][1] >= -tol
    /\ Length(pos, k) > Length(pos, l) => F[k][1][1][1] <= F[l][1][1][1] + tol

SamePairs(F, G, m, tol) == \A k \in DOMAIN F \cup DOMAIN G : Close(Get(F, k, m), Get(G, k, m), tol)

(* ---- properties of couplings ------------------------------------------------ *)

HermitianTriples(F, m, tol) == \A k \in DOMAIN F :
    CloseAll([x \in I3 |-> Adjoint(F[k][x])], GetAll(F, TripleAdjoint(k), m), tol)

SymmetricTriples(F, pos, orb, gens, m, V(_), U(_), n, tol) == \A g \in gens :
    LET u == TLCEval(U(g))
        v == TLCEval(V(g))
    IN \A k \in DOMAIN F :
        CloseAll(TLCEval(TurnVector(v, TLCEval([x \in I3 |-> TurnBlock(u, F[k][x], n)]), n)),
            GetAll(F, TripleImage(pos, orb, g, k), m), tol)

RealTriples(F, tol) == \A k \in DOMAIN F : \A x \in I3 : \A i, j \in 1 .. Len(F[k][x][1]) :
    Abs(F[k][x][2][i][j]) <= tol

(* only atoms at the positions of the orbitals matter                          *)
TwoCentre(F, pos, orb, tol) == \A k \in DOMAIN F :
    \/ Place(pos, k[1], k[2]) \in {orb[k[4]], Place(orb, k[5], k[3])}
    \/ \A x \in I3 : \A c \in 1 .. 2 : \A i, j \in 1 .. Len(F[k][x][c]) : Abs(F[k][x][c][i][j]) <= tol

(* rigid translations do not couple                                            *)
AcousticTriples(F, m, tol) ==
    \A p \in {<<k[3], k[4], k[5]>> : k \in DOMAIN F} : \A x \in I3 : \A c \in 1 .. 2 : \A i, j \in 1 .. m :
        LET K == {k \in DOMAIN F : <<k[3], k[4], k[5]>> = p}
        IN Abs(SumOver([k \in K |-> F[k][x][c][i][j]], K)) <= tol

SameTriples(F, G, m, tol) == \A k \in DOMAIN F \cup DOMAIN G : CloseAll(GetAll(F, k, m), GetAll(G, k, m), tol)
=============================================================================
