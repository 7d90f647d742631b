---------------------------- MODULE ParallelTrace ----------------------------
(* Real parallel runs against the serial run: every process returns what the
   serial run returns (up to the rounding errors of sums taken in a different
   order, measured by the order of magnitude of the relative deviation: -99
   for identical results, 99 for results of different structure).            *)
EXTENDS Judge

Tolerance == 0 - 8

Verdict(r) ==
  IF r.fate # "finished" THEN "does not finish"
  ELSE IF \E i \in 1 .. Len(r.raised) : r.raised[i] THEN "fails in parallel only"
  ELSE IF Len(r.deviation) # r.processes THEN "results missing"
  ELSE IF r.deviation[1] > Tolerance THEN "first process differs from serial run"
  ELSE IF \E i \in 1 .. r.processes : r.deviation[i] > Tolerance
       THEN "process differs from serial run"
  ELSE "ok"
=============================================================================
