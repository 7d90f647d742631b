---------------------------- MODULE CouplingCache ----------------------------
(* Design model of the evaluation cache of the coupling model.

   The model keeps the Rk-dependent transform of its data for the last q.
   Data are abstracted to a version number that every modification raises.
   A value is right iff it stems from the current version and the requested q.
   Every history of Depth operations is emitted for replay on real objects.   *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Depth,     \* length of histories
          Resets     \* operations after which the cache is dropped

Qs == {1, 2}
Changes == {"std", "sym", "asr", "rebuild", "rebuildws", "clear", "super"}

VARIABLES version, cache, value, want, hist
vars == <<version, cache, value, want, hist>>

None == [q |-> 0, version |-> -1]

Init == /\ version = 0 /\ cache = None /\ value = None /\ want = None
        /\ hist = <<>>

Eval(q) ==
  LET new == IF cache.q = q THEN cache ELSE [q |-> q, version |-> version] IN
  /\ cache' = new
  /\ value' = new
  /\ want' = [q |-> q, version |-> version]
  /\ hist' = Append(hist, [op |-> "eval", q |-> q])
  /\ UNCHANGED version

Change(o) ==
  /\ version' = version + 1
  /\ cache' = IF o \in Resets THEN None ELSE cache
  /\ value' = None /\ want' = None
  /\ hist' = Append(hist, [op |-> o, q |-> 0])

(* the caller overwrites what the last evaluation returned *)
Scribble ==
  /\ value # None
  /\ value' = None /\ want' = None
  /\ hist' = Append(hist, [op |-> "scribble", q |-> 0])
  /\ UNCHANGED <<version, cache>>

Next == /\ Len(hist) < Depth
        /\ \/ \E q \in Qs : Eval(q)
           \/ \E o \in Changes : Change(o)
           \/ Scribble

Spec == Init /\ [][Next]_vars

Fresh == value = want
TypeOK == version \in 0 .. Depth /\ cache.q \in {0} \cup Qs

(* Histories worth replaying: they end with an evaluation that follows one. *)
Emit == \/ Len(hist) < Depth
        \/ hist[Depth].op # "eval"
        \/ \A i \in 1 .. Depth - 1 : hist[i].op # "eval"
        \/ PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
