----------------------------- MODULE SymmetryTrace -----------------------------
(* Conformance of bravais.images, irreducibles, symmetries, complete,
   complete_k and dispersion.dispersion_full.                                 *)
EXTENDS Symmetry, Judge

Pairs(s) == {<<x[1], x[2]>> : x \in ToSet(s)}
Partial(data) == [k \in {<<x[1], x[2]>> : x \in ToSet(data)} |->
                    (CHOOSE x \in ToSet(data) : <<x[1], x[2]>> = k)[3]]

OfImages(r) == IF Pairs(r.got) # Orbit(r.angle, <<r.k[1], r.k[2]>>, r.nk)
                 \/ Len(r.got) # Cardinality(Pairs(r.got))
               THEN "images are not the orbit" ELSE "ok"
OfIrreducibles(r) == IF Pairs(r.got) # Irreducible(r.angle, r.nk)
                       \/ Len(r.got) # Cardinality(Pairs(r.got))
                     THEN "not one point per orbit" ELSE "ok"
(* got: <<reflect, degrees, image>>, image row-major list of points *)
OfSymmetries(r) ==
  LET d == TLCEval(Partial(r.data))
      ops == OpList(r.angle)
      want == SelectSeq(ops, LAMBDA op : (r.unity \/ op # <<FALSE, 0>>)
                              /\ Fulfils(r.angle, r.nk, op, d, r.eps))
  IN IF [i \in 1 .. Len(r.got) |-> <<r.got[i][1], r.got[i][2]>>]
        # [i \in 1 .. Len(want) |-> <<want[i][1], want[i][2] * Turn(r.angle)>>]
     THEN "not the symmetries of the data"
     ELSE IF \E i \in 1 .. Len(want) : \E k \in Mesh(r.nk) :
       r.got[i][3][(k[1] * r.nk) + k[2] + 1] # Fold(Apply(r.angle, want[i], k), r.nk)
     THEN "wrong image" ELSE "ok"
(* full: complete data; known: list of given points; got: data afterwards *)
OfComplete(r) ==
  LET full == TLCEval(Partial(r.full))
      known == TLCEval([k \in Pairs(r.known) |-> full[k]])
      open == {op \in Ops(r.angle) : Fulfils(r.angle, r.nk, op, known, 0)}
      honest == \A op \in open : Fulfils(r.angle, r.nk, op, full, 0)
      covered == UNION {{Fold(Apply(r.angle, op, k), r.nk) : op \in open} : k \in DOMAIN known}
  IN IF ~honest \/ covered # Mesh(r.nk) THEN "ok" \* ambiguous input
     ELSE IF Len(r.got) # r.nk * r.nk \/ Partial(r.got) # full THEN "not completed to the full mesh"
     ELSE "ok"
(* f: values of an invariant function at <<q1, q2, k1, k2>>; wedge holds it at
   irreducible q; got is the result on the full mesh *)
OfCompleteK(r) ==
  LET Lookup(s, i, j, k, l) == s[(((((i * r.nq) + j) * r.nk) + k) * r.nk) + l + 1]
  IN IF \E op \in Ops(60) : \E q \in Mesh(r.nq), k \in Mesh(r.nk) :
          LET p == Fold(Apply(60, op, q), r.nq)
              l == Fold(Apply(60, op, k), r.nk)
          IN Lookup(r.f, p[1], p[2], l[1], l[2]) # Lookup(r.f, q[1], q[2], k[1], k[2])
     THEN "machinery: function is not invariant"
     ELSE IF r.f # r.got THEN "wrong data on the full mesh" ELSE "ok"
(* bands: list of shells per band; cols: integer eigenvectors (times s);
   v[k], V[k] (columns, times s), o[k]: row-major lists *)
OfDispersion(r) ==
  LET n == Len(r.bands)
      e == TLCEval([k \in Mesh(r.nk) |-> [b \in 1 .. n |-> Band(r.angle, r.bands[b], k, r.nk)]])
      At(x, k) == x[(k[1] * r.nk) + k[2] + 1]
      Count(f, x) == Cardinality({b \in 1 .. n : f[b] = x})
      Match(u, w) == u = w \/ u = [i \in DOMAIN w |-> -w[i]]
      Simple(k) == \A b, c \in 1 .. n : b # c => e[k][b] # e[k][c]
  IN IF Len(r.v) # r.nk * r.nk THEN "wrong shape"
     ELSE IF \E k \in Mesh(r.nk) : \E b \in 1 .. n :
       Count(At(r.v, k), e[k][b]) # Count(e[k], e[k][b])
     THEN "wrong eigenvalues on the full mesh"
     ELSE IF ~r.order /\ \E k \in Mesh(r.nk) : \E b \in 1 .. n - 1 : At(r.v, k)[b] > At(r.v, k)[b + 1]
     THEN "eigenvalues not ascending"
     ELSE IF r.vectors /\ \E k \in Mesh(r.nk) : Simple(k) /\ \E b \in 1 .. n :
       LET c == CHOOSE c \in 1 .. n : e[k][c] = At(r.v, k)[b]
       IN ~Match(At(r.V, k)[b], r.cols[c])
     THEN "wrong eigenvectors on the full mesh"
     ELSE IF r.order /\ \E k \in Mesh(r.nk) :
       LET o == At(r.o, k) IN
         \/ {o[b] : b \in 1 .. n} # 0 .. n - 1
         \/ Simple(k) /\ \E b, c \in 1 .. n : o[b] < o[c] /\ At(r.v, k)[b] > At(r.v, k)[c]
     THEN "reported order does not sort the bands"
     \* all points simple: bands keep their character everywhere
     ELSE IF r.order /\ (\A k \in Mesh(r.nk) : Simple(k)) /\
       \E k \in Mesh(r.nk) : \E b \in 1 .. n :
         (CHOOSE c \in 1 .. n : e[k][c] = At(r.v, k)[b]) #
         (CHOOSE c \in 1 .. n : e[<<0, 0>>][c] = At(r.v, <<0, 0>>)[b])
     THEN "bands do not follow their character" ELSE "ok"

Verdict(r) ==
  IF r.exc # "" THEN "raised " \o r.exc
  ELSE CASE r.kind = "images" -> OfImages(r)
         [] r.kind = "irreducibles" -> OfIrreducibles(r)
         [] r.kind = "symmetries" -> OfSymmetries(r)
         [] r.kind = "complete" -> OfComplete(r)
         [] r.kind = "complete_k" -> OfCompleteK(r)
         [] r.kind = "dispersion" -> OfDispersion(r)
=============================================================================
