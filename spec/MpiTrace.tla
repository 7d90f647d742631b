------------------------------ MODULE MpiTrace ------------------------------
(* Are the communication and the accesses to shared memory observed in a real
   parallel run a behaviour of Mpi, free of races and deadlocks?             *)
EXTENDS Mpi, HistoryJudge

Start(s) == Begin(s.n, s.comms)

Step(x, s) == Advance(x, s)

Agree(x, s) == x.verdict
=============================================================================
