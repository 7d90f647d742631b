------------------------- MODULE PredefinedTrace -------------------------
(* Judges predefined models taken from the real code.                         *)
EXTENDS Predefined, Judge

F(blocks) == LET D == {blocks[i][1] : i \in 1 .. Len(blocks)}
    IN [k \in D |-> blocks[CHOOSE i \in 1 .. Len(blocks) : blocks[i][1] = k][2]]

Unique(blocks) == Cardinality({blocks[i][1] : i \in 1 .. Len(blocks)}) = Len(blocks)

Orbitals(X) == [i \in 1 .. Len(X.orb) |-> X.pos[X.orb[i]]]

Pairs(r) ==
    LET X == Crystals[r.name]
        p == TLCEval(F(r.x))
        el == r.part # "ph"
        m == IF el THEN X.dim ELSE 3
        pos == IF el THEN Orbitals(X) ELSE X.pos
        U(g) == IF el THEN Orbital(g, X.dim) ELSE Vector(g)
    IN IF Len(r.x) = 0 THEN "no elements"
       ELSE IF ~ HermitianPairs(p, m, 2) THEN "not Hermitian"
       ELSE IF ~ RealPairs(p, 2) THEN "not symmetric under time reversal"
       ELSE IF r.part = "ph" /\ ~ AcousticPairs(p, Len(pos), 3, 2 + Cardinality(DOMAIN p))
       THEN "rigid translations exert forces"
       ELSE IF ~ SymmetricPairs(p, pos, X.gens, m, U, N, 8) THEN "not symmetric under the point group"
       ELSE IF r.part = "elel" /\ ~ Decreasing(p, pos, 2) THEN "repulsion does not decrease with distance"
       ELSE "ok"

Triples(r) ==
    LET X == Crystals[r.name]
        t == TLCEval(F(r.x))
        orb == Orbitals(X)
        U(g) == Orbital(g, X.dim)
    IN IF Len(r.x) = 0 THEN "no elements"
       ELSE IF ~ HermitianTriples(t, X.dim, 2) THEN "coupling not Hermitian"
       ELSE IF ~ RealTriples(t, 2) THEN "coupling not symmetric under time reversal"
       ELSE IF ~ AcousticTriples(t, X.dim, 12) THEN "rigid translations couple"
       ELSE IF ~ TwoCentre(t, X.pos, orb, 2) THEN "distant atom couples"
       ELSE IF ~ SymmetricTriples(t, X.pos, orb, X.gens, X.dim, Vector, U, N, 12)
       THEN "coupling not symmetric under the point group"
       ELSE "ok"

(* the same from two sources                                                   *)
Same(r) ==
    LET X == Crystals[r.name]
        m == IF r.part = "ph" THEN 3 ELSE X.dim
    IN IF ~ Unique(r.x) \/ ~ Unique(r.y) THEN "element stored twice"
       ELSE IF (IF r.part = "elph" THEN SameTriples(TLCEval(F(r.x)), TLCEval(F(r.y)), m, 3)
                ELSE SamePairs(TLCEval(F(r.x)), TLCEval(F(r.y)), m, 3)) THEN "ok"
       ELSE "model differs from formula"

(* positions in units of 1/3000 of the lattice vectors, metric in 1/1000        *)
Structure(r) ==
    LET X == Crystals[r.name]
        hex == r.name # "chain"
        same(p, q) == \A i \in 1 .. 2 : Abs(p[i] - (1000 * q[i])) <= 1
    IN IF Len(r.pos) # Len(X.pos) THEN "wrong number of sites"
       ELSE IF \E s \in 1 .. Len(r.pos) : ~ same(r.pos[s], X.pos[s]) THEN "atom at the wrong place"
       ELSE IF r.name = "tas2" /\ ~ (r.pos[1][3] = 0 /\ r.pos[2][3] > 0 /\ r.pos[3][3] = -r.pos[2][3])
       THEN "heights are not opposite"
       ELSE IF r.name # "tas2" /\ \E s \in 1 .. Len(r.pos) : r.pos[s][3] # 0 THEN "atom at the wrong place"
       ELSE IF \E s, t \in 1 .. Len(r.pos) : (r.kinds[s] = r.kinds[t]) # (X.kinds[s] = X.kinds[t])
       THEN "species do not match"
       ELSE IF hex /\ ~ (Abs(r.metric[1][1] - r.metric[2][2]) <= 1
                /\ Abs(r.metric[1][1] + (2 * r.metric[1][2])) <= 2) THEN "lattice is not hexagonal"
       ELSE IF ~ hex /\ r.metric[1][2] # 0 THEN "lattice is not rectangular"
       ELSE IF r.metric[1][3] # 0 \/ r.metric[2][3] # 0 THEN "third vector is not perpendicular"
       ELSE "ok"

OfPredefined(r) ==
    IF r.exc # "" THEN r.exc
    ELSE CASE r.kind = "rules" -> IF r.part = "elph" THEN Triples(r) ELSE Pairs(r)
           [] r.kind = "same" -> Same(r)
           [] r.kind = "structure" -> Structure(r)
=============================================================================
