------------------------------ MODULE MeshModel ------------------------------
(* Localized models made from data on a regular mesh.

   nr: mesh sizes (1, 2 or 4 along each axis); a mesh point m stands for the
   wave vector 2 pi m / nr.  `elems` as in Model; `mesh` is the set of nonzero
   data <<m, a, b, re, im>>.                                                 *)
EXTENDS WignerSeitz, Coupling

Quarter(m, nr) == [i \in 1 .. 3 |-> m[i] * (4 \div nr[i])]

(* the model reproduces the data at every mesh point *)
Reproduces(elems, mesh, nr) ==
  \A m \in Mesh3(nr) :
    {<<y[1], y[2], y[3], y[4]>> : y \in
      {LET z == Fourier(elems, Quarter(m, nr), p[1], p[2]) IN <<p[1], p[2], z[1], z[2]>> :
         p \in {<<e[2], e[3]>> : e \in elems}}} \ {<<p[1], p[2], 0, 0>> : p \in {<<e[2], e[3]>> : e \in elems}}
    = {<<d[2], d[3], d[4], d[5]>> : d \in {d \in mesh : d[1] = m}}

(* the model lives on nearest images only, all of them with the same value;
   s: site of orbital, bonds from site to site *)
Localized(elems, nr, at, tau, s(_), w) ==
  \A x \in {<<Mod3(e[1], nr), e[2], e[3]>> : e \in elems} :
    LET near == Nearest(x[1], nr, Sub(tau[s(x[3])], tau[s(x[2])]), at, w)
        mine == {e \in elems : Mod3(e[1], nr) = x[1] /\ e[2] = x[2] /\ e[3] = x[3]}
    IN /\ {e[1] : e \in mine} = near
       /\ Cardinality({<<e[4], e[5]>> : e \in mine}) = 1
       /\ Cardinality(mine) = Cardinality(near)

(* documented unit conversion of electronic models *)
EnergyFactor(input, model) == IF input = model THEN "1"
                              ELSE IF input THEN "Ry" ELSE "1/Ry"

(* data divided by masses or not; rt[x]: square root of mass of atom x *)
MassConvert(mesh, input, model, rt) ==
  LET f(d) == rt[d[2] \div 3 + 1] * rt[d[3] \div 3 + 1] IN
  {IF input = model THEN d
   ELSE IF input THEN <<d[1], d[2], d[3], d[4] * f(d), d[5] * f(d)>>
   ELSE <<d[1], d[2], d[3], d[4] \div f(d), d[5] \div f(d)>> : d \in mesh}

(* ---- coupling: mesh data <<q, k, x, a, b, re, im>> ----------------------- *)
CReproduces(c, mesh, nq, nk) ==
  \A q \in Mesh3(nq), k \in Mesh3(nk) :
    {<<y[2], y[4], y[5], y[6], y[7]>> : y \in CFourier(c, Quarter(q, nq), Quarter(k, nk))}
    = {<<d[3], d[4], d[5], d[6], d[7]>> : d \in {d \in mesh : d[1] = q /\ d[2] = k}}

CLocalized(c, nq, nk, at, ra, ro, w) ==
  \A x \in {<<Mod3(e[1], nq), e[2], Mod3(e[3], nk), e[4], e[5]>> : e \in c} :
    LET ng == Nearest(x[1], nq, Sub(ra[x[2] \div 3 + 1], ro[x[4] + 1]), at, w)
        nn == Nearest(x[3], nk, Sub(ro[x[5] + 1], ro[x[4] + 1]), at, w)
        mine == {e \in c : <<Mod3(e[1], nq), e[2], Mod3(e[3], nk), e[4], e[5]>> = x}
    IN /\ {<<e[1], e[3]>> : e \in mine} = ng \X nn
       /\ Cardinality({<<e[6], e[7]>> : e \in mine}) = 1

CMassConvert(mesh, input, model, rt) ==
  LET f(d) == rt[d[3] \div 3 + 1] IN
  {IF input = model THEN d
   ELSE IF input THEN [d EXCEPT ![6] = @ * f(d), ![7] = @ * f(d)]
   ELSE [d EXCEPT ![6] = @ \div f(d), ![7] = @ \div f(d)] : d \in mesh}
=============================================================================
