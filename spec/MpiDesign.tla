----------------------------- MODULE MpiDesign -----------------------------
(* All small parallel programs, all their executions.

   Every rank runs a short program of collective calls and accesses to one
   shared location.  Any single execution is judged by the monitor of Mpi; the
   model explores ALL executions of the program, with collectives that complete
   early as well as with collectives that synchronise.  Claim: if the monitor
   accepts one execution, no execution deadlocks and all executions read the
   same values and write in the same order (Safe); and it rejects only programs
   of which some execution deadlocks or two executions differ (Exact).       *)
EXTENDS Mpi

CONSTANTS N, L, Code \* ranks, length of programs, instructions

(* Communicator 1: all ranks; 2: ranks 1 and 2.                              *)
Comms == <<<<1, [i \in 1 .. N |-> i]>>, <<2, <<1, 2>>>>>>
Member(c, r) == \E i \in 1 .. Len(Comms[c][2]) : Comms[c][2][i] = r

Op(i) == CASE i = "B" -> <<"Barrier", 1, 0>> [] i = "b" -> <<"Barrier", 2, 0>>
           [] i = "X" -> <<"bcast", 1, 0>> [] i = "x" -> <<"bcast", 2, 0>>
           [] i = "R" -> <<"reduce", 1, 0>> [] i = "S" -> <<"reduce", 1, 1>>
           [] i = "r" -> <<"reduce", 2, 1>> [] OTHER -> <<"", 0, 0>>
Calls == {"B", "b", "X", "x", "R", "S", "r"}

Programs == {p \in [1 .. N -> [1 .. L -> Code]] :
  \A r \in 1 .. N : \A k \in 1 .. L : p[r][k] \in Calls => Member(Op(p[r][k])[2], r)}

VARIABLES prog, weak, pc, post, mem, seen, ok
vars == <<prog, weak, pc, post, mem, seen, ok>>

(* pc[r]: next instruction; post: posted calls; mem: all writes so far;
   seen[r]: what rank r read.                                                *)

Count(p, r, c, k) == Cardinality({j \in 1 .. k - 1 : p[r][j] \in Calls /\ Op(p[r][j])[2] = c})

Event(p, r, k) ==
  LET i == p[r][k]
  IN IF i \in Calls
     THEN [rank |-> r, op |-> Op(i)[1], comm |-> Op(i)[2], root |-> Op(i)[3],
           number |-> Count(p, r, Op(i)[2], k), dtype |-> "", into |-> "",
           count |-> -1, counts |-> <<>>, reads |-> <<>>, writes |-> <<>>]
     ELSE [rank |-> r, op |-> "local", comm |-> 0, root |-> 0, number |-> -1,
           dtype |-> "", into |-> "", count |-> -1, counts |-> <<>>,
           reads |-> IF i = "?" THEN << <<1, 0, 1>> >> ELSE <<>>,
           writes |-> IF i = "!" THEN << <<1, 0, 1>> >> ELSE <<>>]

End(r) == [rank |-> r, op |-> "end", comm |-> 0, root |-> 0, number |-> -1,
  dtype |-> "", into |-> "", count |-> -1, counts |-> <<>>, reads |-> <<>>, writes |-> <<>>]

Posts(q, k) == {q[j] : j \in {j \in 1 .. Len(q) : <<q[j].comm, q[j].number>> = k}}

(* May rank r go on, given the sequence of events posted?                    *)
Free(p, c, q, r, w) ==
  IF c[r] = 1 \/ p[r][c[r] - 1] \notin Calls THEN TRUE
  ELSE LET e == Event(p, r, c[r] - 1)
           P == Posts(q, <<e.comm, e.number>>)
           m == Comms[e.comm][2]
       IN (\A a \in P : a.op = e.op /\ a.root = e.root) /\
          IF w THEN MayReturn(e, m, P)
          ELSE \A i \in 1 .. Len(m) : \E a \in P : a.rank = m[i]

(* One execution (lowest rank first), judged by the monitor.                 *)
RECURSIVE Canon(_, _, _, _)
Canon(p, c, q, x) ==
  LET R == {r \in 1 .. N : c[r] <= L + 1 /\ Free(p, c, q, r, TRUE)}
  IN IF R = {} THEN Advance(x, [op |-> "stop"]).verdict
     ELSE LET r == CHOOSE a \in R : \A b \in R : a <= b
              e == IF c[r] > L THEN End(r) ELSE Event(p, r, c[r])
          IN Canon(p, TLCEval([c EXCEPT ![r] = @ + 1]),
               IF e.op \in {"local", "end"} THEN q ELSE Append(q, e),
               TLCEval(Advance(x, e)))

Verdict(p) == Canon(p, [r \in 1 .. N |-> 1], <<>>, Begin(N, Comms))

Init == /\ prog \in Programs
        /\ weak \in BOOLEAN
        /\ pc = [r \in 1 .. N |-> 1]
        /\ post = <<>>
        /\ mem = <<>>
        /\ seen = [r \in 1 .. N |-> <<>>]
        /\ ok = (Verdict(prog) = "ok")

Next == ok /\ \E r \in 1 .. N :
  /\ pc[r] <= L + 1
  /\ Free(prog, pc, post, r, weak)
  /\ pc' = [pc EXCEPT ![r] = @ + 1]
  /\ UNCHANGED <<prog, weak, ok>>
  /\ IF pc[r] > L THEN UNCHANGED <<post, mem, seen>>
     ELSE LET i == prog[r][pc[r]]
          IN /\ post' = IF i \in Calls THEN Append(post, Event(prog, r, pc[r])) ELSE post
             /\ mem' = IF i = "!" THEN Append(mem, <<r, pc[r]>>) ELSE mem
             /\ seen' = IF i = "?" THEN [seen EXCEPT ![r] = Append(@, mem)] ELSE seen

(* The results of all executions, after rank r did this and that.            *)
RECURSIVE Outcomes(_, _, _, _, _, _, _)
Outcomes(p, c, q, m, z, w, one) ==
  LET F == {r \in 1 .. N : c[r] <= L + 1 /\ Free(p, c, q, r, w)}
      R == IF one /\ F # {} THEN {CHOOSE a \in F : \A b \in F : a <= b} ELSE F
  IN IF R = {} THEN {[seen |-> z, mem |-> m, done |-> \A r \in 1 .. N : c[r] = L + 2]}
     ELSE UNION {
       LET i == IF c[r] > L THEN "" ELSE p[r][c[r]]
       IN Outcomes(p, TLCEval([c EXCEPT ![r] = @ + 1]),
            IF i \in Calls THEN Append(q, Event(p, r, c[r])) ELSE q,
            IF i = "!" THEN Append(m, <<r, c[r]>>) ELSE m,
            IF i = "?" THEN TLCEval([z EXCEPT ![r] = Append(@, m)]) ELSE z, w, one)
       : r \in R}

Results(p, w, one) ==
  Outcomes(p, [r \in 1 .. N |-> 1], <<>>, <<>>, [r \in 1 .. N |-> <<>>], w, one)

Finished == \A r \in 1 .. N : pc[r] = L + 2
Stuck == ~\E r \in 1 .. N : pc[r] <= L + 1 /\ Free(prog, pc, post, r, weak)

Safe == ok /\ Stuck =>
  /\ Finished
  /\ Results(prog, TRUE, TRUE) = {[seen |-> seen, mem |-> mem, done |-> TRUE]}

(* No false alarms either.                                                   *)
Exact == (\A r \in 1 .. N : pc[r] = 1) /\ ~ok =>
  LET O == Results(prog, TRUE, FALSE) \cup Results(prog, FALSE, FALSE)
  IN Cardinality(O) > 1 \/ \E o \in O : ~o.done

Spec == Init /\ [][Next]_vars
=============================================================================
