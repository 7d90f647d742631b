-------------------------- MODULE SummariesTrace --------------------------
(* Judges summaries reported by the real code.                                 *)
EXTENDS Summaries, Judge

OfSummaries(r) ==
    IF r.exc # "" THEN r.exc
    ELSE CASE r.kind \in {"electron", "displacement"} ->
              IF SameBag(r.got, Nonzero(Profile(r.R, r.B, r.a))) THEN "ok" ELSE "decay of couplings"
           [] r.kind = "hopping" ->
              IF SameBag(r.got, Profile(r.R, r.B, r.a)) THEN "ok" ELSE "decay of hoppings"
           [] r.kind = "bonds" ->
              IF SameBag(r.got, TLCEval(Bonds(r.R, r.C, r.a, r.r))) THEN "ok"
              ELSE "decay of force constants"
           [] r.kind = "strength" ->
              IF r.got[1] = Strength(r.R, r.C, Len(r.r)) THEN "ok" ELSE "sum of force constants"
           [] r.kind = "frequencies" ->
              IF Len(r.got) # Len(r.B) \/ r.nq # Len(r.B) THEN "number of q points"
              ELSE IF r.points # r.R THEN "q points"
              ELSE IF \A q \in 1 .. Len(r.B) : Sorted(r.B[q], r.got[q]) THEN "ok" ELSE "frequencies"
=============================================================================
