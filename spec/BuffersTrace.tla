----------------------------- MODULE BuffersTrace -----------------------------
(* Histories of real buffer files, over several runs on different numbers of
   processes.  State: contents of every slot, array files, and how far
   functions have been buffered.                                             *)
EXTENDS HistoryJudge

B == INSTANCE Buffers WITH P <- 1, MaxLength <- 1, Objects <- {1},
  program <- <<>>, pc <- <<>>, store <- 0, sent <- <<>>, got <- <<>>

Start(o) == [slots |-> [i \in 1 .. o.slots |-> 0], arrays |-> [i \in 1 .. o.slots |-> <<>>],
             files |-> 0, wf |-> o.wf, bad |-> ""]

All(seen, x) == \A i \in 1 .. Len(seen) : seen[i] = x

Step(s, e) ==
  CASE e.op = "set" /\ e.slot # 0 -> [s EXCEPT !.slots[e.slot] = e.id]
    [] e.op = "save" -> [s EXCEPT !.arrays[e.slot] = e.data]
    [] e.op = "wf" -> [s EXCEPT !.files = B!AfterRead(@, e.buffered, e.stop)]
    [] OTHER -> s

(* Observations: one per process. *)
Agree(s, e) ==
  IF e.op = "start" THEN "ok"
  ELSE IF e.op = "wf" /\ e.interrupted THEN "ok"
  ELSE IF e.exc # "" THEN "raised " \o e.exc
  ELSE CASE
     e.op = "get" ->
       IF e.slot = 0 THEN IF All(e.seen, 0) THEN "ok" ELSE "object from nowhere"
       ELSE IF All(e.seen, s.slots[e.slot]) THEN "ok" ELSE "not the object stored last"
  [] e.op = "load" ->
       IF All(e.seen, s.arrays[e.slot]) THEN "ok" ELSE "not the array stored last"
  [] e.op = "wf" ->
       IF ~All(e.seen, e.seen[1]) THEN "processes disagree on functions"
       ELSE IF e.seen[1] # s.wf THEN "functions differ from original files"
       ELSE "ok"
  [] OTHER -> "ok"
=============================================================================
