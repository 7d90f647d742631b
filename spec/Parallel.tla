------------------------------ MODULE Parallel ------------------------------
(* Block-parallel evaluation of a function of N work items by P processes on
   nodes, with and without shared memory, as the library organises it:

     own block -> (gather on process 0) -> distribution to the first process
     of every node, or to all processes -> synchronisation of the node.

   The serial semantics is the sequence of all values.  All interleavings are
   explored; every process that has returned holds the serial result.        *)
EXTENDS Distribution, TLC

CONSTANTS MaxN, MaxP \* most work items and processes

(* Placements of processes on nodes: the node of every process.              *)
Layouts == UNION {{w \in [1 .. k -> 1 .. k] : \A p \in 1 .. k :
  w[p] = 1 \/ \E q \in 1 .. p - 1 : w[p] <= w[q] + 1} : k \in 1 .. MaxP}

Serial(n) == [i \in 1 .. n |-> i * i]
Garbage == "garbage"

VARIABLES N, where, shared, stage, part, mem
vars == <<N, where, shared, stage, part, mem>>

P == Len(where)
Leader(p) == \A q \in 1 .. P : where[q] = where[p] => p <= q
Cell(p) == IF shared THEN where[p] ELSE p
Cells == {Cell(p) : p \in 1 .. P}
Receivers == {p \in 1 .. P : ~shared \/ Leader(p)}

Init == /\ N \in 0 .. MaxN
        /\ where \in Layouts
        /\ shared \in BOOLEAN
        /\ stage = [p \in 1 .. P |-> "work"]
        /\ part = [p \in 1 .. P |-> <<>>]
        /\ mem = [c \in Cells |-> Garbage]

RECURSIVE Concat(_, _)
Concat(f, n) == IF n = 0 THEN <<>> ELSE Concat(f, n - 1) \o f[n]

Work(p) == /\ stage[p] = "work"
           /\ part' = [part EXCEPT ![p] = LET b == Block(N, P, p - 1)
                IN [i \in 1 .. b.hi - b.lo |-> (b.lo + i) * (b.lo + i)]]
           /\ stage' = [stage EXCEPT ![p] = "send"]
           /\ UNCHANGED <<N, where, shared, mem>>

(* Process 1 collects as soon as all have sent; the others do not wait.      *)
Collect == /\ stage[1] = "send"
           /\ \A p \in 1 .. P : stage[p] # "work"
           /\ mem' = [mem EXCEPT ![Cell(1)] = Concat(part, P)]
           /\ stage' = [stage EXCEPT ![1] = "sync"]
           /\ UNCHANGED <<N, where, shared, part>>

Send(p) == /\ p # 1 /\ stage[p] = "send"
           /\ stage' = [stage EXCEPT ![p] = IF p \in Receivers THEN "recv" ELSE "sync"]
           /\ UNCHANGED <<N, where, shared, part, mem>>

Receive(p) == /\ stage[p] = "recv"
              /\ stage[1] \in {"sync", "done"}
              /\ mem' = [mem EXCEPT ![Cell(p)] = mem[Cell(1)]]
              /\ stage' = [stage EXCEPT ![p] = "sync"]
              /\ UNCHANGED <<N, where, shared, part>>

(* Barrier of the processes that share memory.                               *)
Leave(p) == /\ stage[p] = "sync"
            /\ \A q \in 1 .. P : Cell(q) = Cell(p) => stage[q] \in {"sync", "done"}
            /\ stage' = [stage EXCEPT ![p] = "done"]
            /\ UNCHANGED <<N, where, shared, part, mem>>

Next == Collect \/ \E p \in 1 .. P : Work(p) \/ Send(p) \/ Receive(p) \/ Leave(p)

Spec == Init /\ [][Next]_vars

Returned(p) == stage[p] = "done" => mem[Cell(p)] = Serial(N)
Correct == \A p \in 1 .. P : Returned(p)
NoDeadlock == (\A p \in 1 .. P : stage[p] = "done") \/ ENABLED Next
=============================================================================
