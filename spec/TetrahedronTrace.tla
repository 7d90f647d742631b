-------------------------- MODULE TetrahedronTrace --------------------------
(* Judges densities of states, isolines and their intersections.              *)
EXTENDS Tetrahedron, Judge

ErrStates == "density of states"
ErrInfinite == "density of states of flat bands"
ErrCoupled == "weighted density of states"
ErrCrossings == "number of intersections"
ErrPlace == "intersection at wrong place"
ErrWeight == "weight of intersection"
ErrEnergy == "isoline leaves its energy"
ErrZone == "isoline leaves the zone"
ErrPieces == "isoline is not complete"
ErrPiece == "isoline misses a triangle"

Densities(r) ==
    IF \E i \in 1 .. Len(r.e) : r.inf[i] # Flat(r.f, r.e[i]) THEN ErrInfinite
    ELSE IF \E i \in 1 .. Len(r.e) : ~ r.inf[i] /\
        r.v[i] # IF r.h = <<>> THEN States(r.L, r.f, r.e[i]) ELSE Coupled(r.L, r.f, r.h, r.e[i])
    THEN IF r.h = <<>> THEN ErrStates ELSE ErrCoupled
    ELSE "ok"

(* places are scaled by r.s, weights by r.unit                                 *)
Near(p, c, r) == LET n == Len(r.x)
                     off(i) == ((p[i] * c[3]) - (c[i] * r.s)) % (n * r.s * c[3])
                 IN \A i \in 1 .. 2 : off(i) <= c[3] \/ off(i) >= (n * r.s * c[3]) - c[3]
Intersections(r) ==
    LET X == TLCEval(Crossings(r.x, r.y, r.f, r.z))
        P == TLCEval(Places(X))
    IN IF Len(r.p) # Cardinality(P) THEN ErrCrossings
       ELSE IF \E c \in P : ~ \E i \in 1 .. Len(r.p) : Near(r.p[i], c, r) THEN ErrPlace
       ELSE IF \E c \in P : LET w == Weight(X, c, r.unit) IN
            \E i \in 1 .. Len(r.p) : Near(r.p[i], c, r) /\ Size(r.w[i] - w) > 3 THEN ErrWeight
       ELSE "ok"

(* contours are sequences of points scaled by 2 r.s; tie: isoline through mesh points *)
Slope(f) == LET V == UNION {{f[i][j] : j \in 1 .. Len(f)} : i \in 1 .. Len(f)}
            IN 2 * ((CHOOSE m \in V : \A v \in V : v <= m) - (CHOOSE m \in V : \A v \in V : v >= m))
On(r, p, q, d) == Size(Value(r.f, p, q, d) - (r.e * d)) <= 2 * Slope(r.f)
Middle(c, i) == <<c[i][1] + c[i + 1][1], c[i][2] + c[i + 1][2]>>
RECURSIVE Pieces(_, _)
Pieces(cs, i) == IF i = 0 THEN 0 ELSE (Len(cs[i]) - 1) + Pieces(cs, i - 1)
(* a point scaled by r.s inside a triangle of doubled corners, within rounding  *)
Cross(a, b, p) == ((b[1] - a[1]) * (p[2] - a[2])) - ((b[2] - a[2]) * (p[1] - a[1]))
Holds(r, t, p) == \E a, b, c \in t : LET s(x) == <<x[1] * r.s, x[2] * r.s>> IN
    /\ Cross(a, b, c) > 0
    /\ Cross(s(a), s(b), p) >= -8 * r.s /\ Cross(s(b), s(c), p) >= -8 * r.s /\ Cross(s(c), s(a), p) >= -8 * r.s
Isoline(r) ==
    LET n == Len(r.f)
        d == 2 * r.s
    IN IF \E c \in 1 .. Len(r.c) : \E i \in 1 .. Len(r.c[c]) :
            ~ On(r, r.c[c][i][1], r.c[c][i][2], d) THEN ErrEnergy
       ELSE IF \E c \in 1 .. Len(r.c) : \E i \in 1 .. Len(r.c[c]) - 1 :
            LET m == Middle(r.c[c], i) IN ~ On(r, m[1], m[2], 2 * d) THEN ErrEnergy
       ELSE IF \E c \in 1 .. Len(r.c) : \E i \in 1 .. Len(r.c[c]) :
            \E x \in Faces(r.c[c][i]) : x > (n * d) + 3 THEN ErrZone
       ELSE IF ~ r.tie
       THEN LET T == TLCEval(Crossed(r.f, r.e)) IN
            IF Pieces(r.c, Len(r.c)) # Cardinality(T) THEN ErrPieces
            ELSE IF \E t \in T : ~ \E c \in 1 .. Len(r.c) : \E i \in 1 .. Len(r.c[c]) - 1 :
                 LET m == Middle(r.c[c], i)
                 IN Holds(r, t, <<m[1] \div 2, m[2] \div 2>>)
            THEN ErrPiece ELSE "ok"
       ELSE "ok"

OfTetrahedron(r) ==
    IF r.exc # "" THEN r.exc
    ELSE CASE r.kind = "states" -> Densities(r)
           [] r.kind = "crossings" -> Intersections(r)
           [] r.kind = "isoline" -> Isoline(r)
===========================================================================
