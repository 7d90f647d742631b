----------------------------- MODULE DiagramsTrace -----------------------------
(* Conformance of elphmod.diagrams.                                           *)
EXTENDS Diagrams, Judge

Zp(z) == <<z[1], z[2]>>
(* g of q point iq, mode nu, at <<k, m, n>>: nested sequences *)
G(g, iq, nu, t) == g[iq][nu][t[1] + 1][t[2]][t[3]]

OfSusceptibility(r) ==
  IF \E i \in DOMAIN r.q : r.got[i] # Susceptibility(r.f, r.x, r.nk, r.q[i])
  THEN "wrong susceptibility" ELSE "ok"

OfPolarization(r) ==
  IF \E i \in DOMAIN r.q : \E a, b \in 1 .. r.no :
    r.got[i][a][b] # Polarization(r.f, r.x, r.nk, r.q[i], r.nb, r.U, r.sub, r.gap, a, b)
  THEN "wrong polarization" ELSE "ok"

(* got[iq][ph...][omega]: times N kT lcm / 2 (static: lcm = 1), doubled if
   symmetrized *)
Vertex(r, iq, mu, nu, t) == \* g* G, times two if symmetrized
  LET g(x) == G(r.g, iq, x, t)  h(x) == G(r.G, iq, x, t) IN
  IF r.symmetrized THEN ZAdd(ZMul(ZConj(g(mu)), h(nu)), ZMul(ZConj(h(mu)), g(nu)))
  ELSE ZMul(ZConj(g(mu)), h(nu))
OfSelfEnergy(r) ==
  LET om == [w \in DOMAIN r.omega |-> Zp(r.omega[w])]
      base == TLCEval([i \in DOMAIN r.q |-> [w \in DOMAIN om |->
                [t \in Triples(r.nk, r.nb) |-> Integrand(r, r.q[i], t, om[w])]]])
      \* summand of element (mu, nu); coupling squares: mu = nu
      V(i, mu, nu, t) == IF r.matrix THEN (IF r.diagonal /\ mu # nu THEN Z0 ELSE Vertex(r, i, mu, nu, t))
                         ELSE G(r.g, i, mu, t)
      Term(i, mu, nu, w, t) == ZMul(V(i, mu, nu, t), base[i][w][t])
      Modes == {<<mu, nu>> \in (1 .. r.nm) \X (1 .. r.nm) : r.matrix \/ mu = nu}
  IN IF \E i \in DOMAIN r.q : \E p \in Modes : \E w \in DOMAIN om :
          Zp(r.got[i][p[1]][p[2]][w]) #
          ZSum(LAMBDA t : Term(i, p[1], p[2], w, t), Triples(r.nk, r.nb))
     THEN "wrong phonon self-energy"
     ELSE IF r.integrand # <<>> /\ \E i \in DOMAIN r.q : \E p \in Modes : \E w \in DOMAIN om :
          \E t \in Triples(r.nk, r.nb) :
            Zp(r.integrand[i][p[1]][p[2]][w][t[1] + 1][t[2]][t[3]]) # Term(i, p[1], p[2], w, t)
     THEN "wrong integrand" ELSE "ok"

(* contact interaction in the pair <<m, n>>: excess / c^2 * (1 - c S U) with
   c = 2 / (N kT), S the bare bubble *)
OfContact(r) ==
  LET T == {t \in Triples(r.nk, r.nb) : t[2] = r.pair[1] /\ t[3] = r.pair[2]}
      B(i, t) == Bubble(r.f, r.x, r.nk, r.q[i], t, r.gap)
      S(i) == NSum(LAMBDA t : B(i, t), T)
      L(i, mu) == ZSum(LAMBDA t : ZScale(B(i, t), ZConj(G(r.g, i, mu, t))), T)
      R(i, mu) == ZSum(LAMBDA t : ZScale(B(i, t), G(r.G, i, mu, t)), T)
  IN IF \E i \in DOMAIN r.q : r.S[i] # S(i) THEN "machinery: wrong bubble"
     ELSE IF \E i \in DOMAIN r.q : \E mu, nu \in 1 .. r.nm :
       Zp(r.got[i][mu][nu]) # ZScale(r.contact, ZMul(L(i, mu), R(i, nu)))
     THEN "wrong contact interaction" ELSE "ok"

(* Pi g in the orbital basis, times N kT / 2 *)
Amp(U, k, a, n) == U[k + 1][a][n]
PiG(r, i, nu, c, d) ==
  LET q == r.q[i] IN
  ZSum(LAMBDA t :
    LET kq == Plus(t[1], q, r.nk)
        s == ZSum(LAMBDA ab : ZMul(ZMul(ZConj(Amp(r.U, kq, ab[1], t[2])), Amp(r.U, t[1], ab[2], t[3])),
                   r.g[i][nu][t[1] + 1][ab[1]][ab[2]]), (1 .. r.no) \X (1 .. r.no))
    IN ZScale(Bubble(r.f, r.x, r.nk, q, t, r.gap),
        ZMul(ZMul(Amp(r.U, kq, c, t[2]), ZConj(Amp(r.U, t[1], d, t[3]))), s)),
    Triples(r.nk, r.nb))
OfPiG(r) ==
  IF \E i \in DOMAIN r.q : \E nu \in 1 .. r.nm : \E c, d \in 1 .. r.no :
    (r.dd => c = d) /\ Zp(IF r.dd THEN r.got[i][nu][c] ELSE r.got[i][nu][c][d]) # PiG(r, i, nu, c, d)
  THEN "wrong product of coupling and bubble" ELSE "ok"
(* full: four-index interaction, or two-index (density-density) *)
W4(r, i, a, b, c, d) == IF r.dd THEN (IF a = b /\ c = d THEN r.W[i][a][c] ELSE Z0) ELSE r.W[i][a][b][c][d]
OfOrbital(r) ==
  LET O == (1 .. r.no) \X (1 .. r.no)
      P == TLCEval([i \in DOMAIN r.q |-> [nu \in 1 .. r.nm |-> [cd \in O |-> PiG(r, i, nu, cd[1], cd[2])]]])
      D(i, nu, a, b) == ZSum(LAMBDA cd : ZMul(W4(r, i, a, b, cd[1], cd[2]), P[i][nu][cd]), O)
  IN IF \E i \in DOMAIN r.q : \E nu \in 1 .. r.nm : \E ab \in O :
       LET d == D(i, nu, ab[1], ab[2]) IN
       \E k \in Ks(r.nk) : Zp(r.got[i][nu][k + 1][ab[1]][ab[2]]) #
         ZAdd(ZScale(r.scale, r.g[i][nu][k + 1][ab[1]][ab[2]]), d)
     THEN "wrong renormalized coupling" ELSE "ok"
OfBand(r) ==
  LET O == (1 .. r.no) \X (1 .. r.no)
      P == TLCEval([i \in DOMAIN r.q |-> [nu \in 1 .. r.nm |-> [cd \in O |->
        ZSum(LAMBDA t : ZScale(Bubble(r.f, r.x, r.nk, r.q[i], t, r.gap),
          ZMul(ZMul(Amp(r.U, Plus(t[1], r.q[i], r.nk), cd[1], t[2]), ZConj(Amp(r.U, t[1], cd[2], t[3]))),
               G(r.g, i, nu, t))), Triples(r.nk, r.sub))]]])
      WP == TLCEval([i \in DOMAIN r.q |-> [nu \in 1 .. r.nm |-> [ab \in O |->
        ZSum(LAMBDA cd : ZMul(W4(r, i, ab[1], ab[2], cd[1], cd[2]), P[i][nu][cd]), O)]]])
  IN IF \E i \in DOMAIN r.q : \E nu \in 1 .. r.nm : \E t \in Triples(r.nk, r.nb) :
       Zp(r.got[i][nu][t[1] + 1][t[2]][t[3]]) # ZAdd(ZScale(r.scale, G(r.g, i, nu, t)),
         ZSum(LAMBDA ab : ZMul(ZMul(ZConj(Amp(r.U, Plus(t[1], r.q[i], r.nk), ab[1], t[2])),
            Amp(r.U, t[1], ab[2], t[3])), WP[i][nu][ab]), O))
     THEN "wrong renormalized coupling" ELSE "ok"

(* times kT^2 *)
OfFermiAverage(r) ==
  LET W(i, t) == Deriv(r.f, r.x[Plus(t[1], r.q[i], r.nk) + 1][t[2]]) * Deriv(r.f, r.x[t[1] + 1][t[3]])
  IN IF \E i \in DOMAIN r.q : r.deno[i] # NSum(LAMBDA t : W(i, t), Triples(r.nk, r.nb))
     THEN "wrong denominator"
     ELSE IF \E i \in DOMAIN r.q : \E nu \in 1 .. r.nm :
       Zp(r.got[i][nu]) # ZSum(LAMBDA t : ZScale(W(i, t), G(r.g, i, nu, t)), Triples(r.nk, r.nb))
     THEN "wrong enumerator" ELSE "ok"

(* times N / 2 *)
OfFirstOrder(r) ==
  IF \E nu \in 1 .. r.nm : Zp(r.got[nu]) #
    (IF r.U = <<>> THEN ZSum(LAMBDA s : ZScale(F(r.f, r.x[s[1] + 1][s[2]]), r.g[nu][s[1] + 1][s[2]][s[2]]),
                             Ks(r.nk) \X (1 .. r.nb))
     ELSE ZSum(LAMBDA s : ZScale(F(r.f, r.x[s[1] + 1][s[2]]),
            ZMul(ZMul(Amp(r.U, s[1], s[3], s[2]), ZConj(Amp(r.U, s[1], s[4], s[2]))), r.g[nu][s[1] + 1][s[4]][s[3]])),
            Ks(r.nk) \X (1 .. r.nb) \X (1 .. r.no) \X (1 .. r.no)))
  THEN "wrong first-order diagram" ELSE "ok"

(* times N / (2 kT) *)
OfGrandPotential(r) ==
  IF r.got[1] # NSum(LAMBDA s : LET x == r.x[s[1] + 1][s[2]] IN (x * F(r.f, x)) - F(r.entropy, x),
                     Ks(r.nk) \X (1 .. r.nb)) THEN "wrong grand potential" ELSE "ok"

(* times N kT / 2 and the density of states *)
OfShift(r) ==
  LET S == Ks(r.nk) \X (1 .. r.nb)
      D(s) == -Deriv(r.f, r.x[s[1] + 1][s[2]])
      A(nu) == ZSum(LAMBDA s : ZScale(D(s), r.g[nu][s[1] + 1][s[2]][s[2]]), S)
  IN IF r.dos # NSum(D, S) THEN "machinery: wrong density of states"
     ELSE IF \E mu, nu \in 1 .. r.nm : Zp(r.got[mu][nu]) # ZMul(A(mu), A(nu))
     THEN "wrong shift" ELSE "ok"

(* times N kT^2 / 4; integrand likewise, without N *)
OfTriangle(r) ==
  LET T == Ks(r.nk) \X (1 .. r.nb) \X (1 .. r.nb) \X (1 .. r.nb)
      V(t) == ZScale(Triangle(r.f, r.x, r.nk, r.q, r.Q, t),
        ZMul(ZMul(ZConj(r.g1[t[1] + 1][t[3]][t[2]]), r.g2[t[1] + 1][t[4]][t[2]]),
             r.g3[Plus(t[1], r.Q, r.nk) + 1][t[3]][t[4]]))
  IN IF Zp(r.got) # ZSum(V, T) THEN "wrong triangle"
     ELSE IF r.integrand # <<>> /\ \E t \in T : Zp(r.integrand[t[1] + 1][t[2]][t[3]][t[4]]) # V(t)
     THEN "wrong integrand" ELSE "ok"

(* times 3 lcm N w; energies and frequencies in units of w, where the Bose
   function is 1, twice this frequency, where it is 1/3 *)
OfFan(r) ==
  LET Frac(n, m) == LET l == r.lcm \div ((m[1] * m[1]) + (m[2] * m[2]))
                    IN <<n * m[1] * l, -n * m[2] * l>>
      Bose(w) == IF w = 1 THEN 3 ELSE 1
      V(i, o, q, nu, m) ==
        LET t == r.x[Plus(q, r.q[i], r.nk) + 1][m]  w == r.w[q + 1][nu]
            f == 3 * F(r.f, t)
        IN ZAdd(Frac(f + Bose(w), <<(o[1] - t) + w, o[2]>>),
                Frac((3 - f) + Bose(w), <<(o[1] - t) - w, o[2]>>))
  IN IF \E i \in DOMAIN r.q : \E n \in 1 .. r.nb : \E j \in DOMAIN r.omega :
       Zp(r.got[i][n][j]) # ZSum(LAMBDA s : ZMul(r.g[s[1] + 1][s[2]][i][s[3]][n],
          V(i, Zp(r.omega[j]), s[1], s[2], s[3])), Ks(r.nk) \X (1 .. r.nm) \X (1 .. r.nb))
     THEN "wrong electron self-energy" ELSE "ok"

(* pair function known from a table <<x, y, value>>: fixed-point numbers *)
OfPairs(r) ==
  LET P(x, y) == (CHOOSE p \in ToSet(r.table) : p[1] = x /\ p[2] = y)[3]
      D(a, b) == IF a < b THEN b - a ELSE a - b
  IN IF \E i \in DOMAIN r.q : \E nu \in 1 .. r.nm :
       D(r.got[i][nu], NSum(LAMBDA k : r.g[i][nu][k + 1] *
           P(r.x[Plus(k, r.q[i], r.nk) + 1][1], r.x[k + 1][1]), Ks(r.nk))) > r.tol
     THEN "not the sum over pairs" ELSE "ok"

Verdict(r) ==
  IF r.exc # "" THEN "raised " \o r.exc
  ELSE CASE r.kind = "susceptibility" -> OfSusceptibility(r)
         [] r.kind = "polarization" -> OfPolarization(r)
         [] r.kind = "selfenergy" -> OfSelfEnergy(r)
         [] r.kind = "contact" -> OfContact(r)
         [] r.kind = "pig" -> OfPiG(r)
         [] r.kind = "orbital" -> OfOrbital(r)
         [] r.kind = "band" -> OfBand(r)
         [] r.kind = "average" -> OfFermiAverage(r)
         [] r.kind = "first" -> OfFirstOrder(r)
         [] r.kind = "shift" -> OfShift(r)
         [] r.kind = "triangle" -> OfTriangle(r)
         [] r.kind = "grand" -> OfGrandPotential(r)
         [] r.kind = "fan" -> OfFan(r)
         [] r.kind = "pairs" -> OfPairs(r)
=============================================================================
