------------------------------- MODULE Buffers -------------------------------
(* Files that carry objects from one run to the next.

   Store   what a buffer file holds: an object (its number) or nothing.
   WF      what is left of Wannier functions buffered for a seed name:
           heading, functions, mesh, written in this order, so that a run
           that stops on the way leaves a prefix behind.                     *)
EXTENDS Integers, Sequences, FiniteSets

Nothing == 0

(* -- one store, any number of processes, all interleavings ----------------
   Every process executes the same program of "set x" and "get"; the first
   process writes and reads, and hands over to the others.                   *)
CONSTANTS P, MaxLength, Objects

VARIABLES program, pc, store, sent, got
vars == <<program, pc, store, sent, got>>

Ops == [op : {"set"}, x : Objects] \cup [op : {"get"}, x : {Nothing}]

Init == /\ program \in UNION {[1 .. n -> Ops] : n \in 1 .. MaxLength}
        /\ pc = [p \in 1 .. P |-> 1]
        /\ store = Nothing
        /\ sent = [i \in 1 .. Len(program) |-> -1]
        /\ got = [p \in 1 .. P |-> <<>>]

Do(p) ==
  /\ pc[p] <= Len(program)
  /\ LET o == program[pc[p]] IN
     IF o.op = "set"
     THEN /\ store' = IF p = 1 THEN o.x ELSE store
          /\ UNCHANGED <<sent, got>>
     ELSE IF p = 1
     THEN /\ sent' = [sent EXCEPT ![pc[p]] = store]
          /\ got' = [got EXCEPT ![p] = Append(@, store)]
          /\ UNCHANGED store
     ELSE /\ sent[pc[p]] # -1
          /\ got' = [got EXCEPT ![p] = Append(@, sent[pc[p]])]
          /\ UNCHANGED <<sent, store>>
  /\ pc' = [pc EXCEPT ![p] = @ + 1]
  /\ UNCHANGED program

Next == \E p \in 1 .. P : Do(p)
Spec == Init /\ [][Next]_vars

(* Sequential semantics *)
RECURSIVE Expected(_, _, _)
Expected(prog, i, s) ==
  IF i > Len(prog) THEN <<>>
  ELSE IF prog[i].op = "set" THEN Expected(prog, i + 1, prog[i].x)
  ELSE <<s>> \o Expected(prog, i + 1, s)

Prefix(s, t) == Len(s) <= Len(t) /\ \A i \in 1 .. Len(s) : s[i] = t[i]
LastStored == \A p \in 1 .. P : Prefix(got[p], Expected(program, 1, Nothing))
Finishes == (\A p \in 1 .. P : pc[p] > Len(program)) \/ ENABLED Next

(* -- buffered functions ----------------------------------------------------
   files: how many of the three files exist, in order of writing; what: the
   data in them.  Reading with the buffer uses the files only if complete;
   otherwise it reads the originals and (over)writes the buffer.            *)
Complete(files) == files = 3
AfterRead(files, buffered, stop) ==
  IF ~buffered \/ Complete(files) THEN files
  ELSE IF stop = 0 THEN 3
  ELSE IF stop - 1 > files THEN stop - 1 ELSE files
Interrupted(files, buffered, stop) == buffered /\ ~Complete(files) /\ stop # 0
=============================================================================
