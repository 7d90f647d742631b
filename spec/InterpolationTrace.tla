-------------------------- MODULE InterpolationTrace --------------------------
(* Conformance of bravais.linear_interpolation, resize and stack.             *)
EXTENDS Interpolation, Judge

(* comp: data (row-major N x M; M = 1 and angle 0 in one dimension) and points
   <<x, y, got * s^2>>; period 0: none *)
OfPoint(r, d, p) ==
  LET value(n, m) == d[((n % r.N) * r.M) + (m % r.M) + 1]
  IN IF r.period = 0 THEN p[3] = Linear(r.angle, p[1], p[2], r.s, value)
     ELSE p[3] % (r.period * r.s * r.s) \in LinearMod(r.angle, p[1], p[2], r.s, value, r.period)
OfInterpolation(r) ==
  IF \E c \in ToSet(r.comps) : \E p \in ToSet(c.pts) : ~OfPoint(r, c.data, p)
  THEN "not the linear interpolant" ELSE "ok"
(* polar: data are moduli and phases (fractions of period) *)
OfPolar(r) ==
  IF \E c \in ToSet(r.comps) : \E p \in ToSet(c.pts) :
       \/ ~OfPoint([r EXCEPT !.period = 0], c.data, <<p[1], p[2], p[3]>>)
       \/ p[3] # 0 /\ ~OfPoint(r, c.phase, <<p[1], p[2], p[4]>>)
  THEN "not the polar interpolant" ELSE "ok"
(* got: N1 x M1 values times s^2; s a multiple of all denominators *)
OfResize(r) ==
  LET num(m, N, N1) == IF r.periodic THEN (m * N * r.s) \div N1 ELSE (m * (N - 1) * r.s) \div (N1 - 1)
      P(i) == <<num(i \div r.M1, r.N, r.N1),
                IF r.angle = 0 THEN 0 ELSE num(i % r.M1, r.M, r.M1), 0>>
  IN IF \E c \in ToSet(r.comps) : Len(c.got) # r.N1 * r.M1 THEN "wrong shape"
     ELSE IF \E c \in ToSet(r.comps) : \E i \in 1 .. r.N1 * r.M1 :
               ~OfPoint(r, c.data, [P(i - 1) EXCEPT ![3] = c.got[i]])
     THEN "not the point-wise interpolation" ELSE "ok"
(* cols: list of <<input, output>> *)
OfStack(r) ==
  IF \E c \in ToSet(r.cols) : Len(c[2]) # Len(c[1]) \/
       \E i \in 1 .. Len(c[1]) : (c[2][i] - c[1][i]) % r.period # 0
  THEN "not equivalent to the input"
  ELSE IF \E c \in ToSet(r.cols) :
       \A p \in Stackings(c[1], r.period) : Variance(c[2]) # Variance(p)
  THEN "not the most localized points" ELSE "ok"
Verdict(r) ==
  IF r.exc # "" THEN "raised " \o r.exc
  ELSE CASE r.kind = "interpolation" -> OfInterpolation(r)
         [] r.kind = "polar" -> OfPolar(r)
         [] r.kind = "resize" -> OfResize(r)
         [] r.kind = "stack" -> OfStack(r)
=============================================================================
