----------------------------- MODULE HistoryJudge -----------------------------
(* Trace validation of histories.

   Every record of the trace is one history of operations on real objects:
   `start` (how it began, with an observation) and `steps` (operation,
   arguments, observation).  The specification's own state `st` is advanced by
   its own transition function `Transition`; `Agreement(st, step)` is the total
   verdict on the observation made after the step.                            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Initial(_), Transition(_, _), Agreement(_, _)

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, pos, st, verdict
hvars == <<tr, pos, st, verdict>>

Report(v, n, t, p) ==
  /\ (v # "ok" => PrintT(<<"BAD", t, "step " \o ToString(p) \o ": " \o v>>) /\ PrintT(<<"NOT OK", 1>>))
  /\ (v # "ok" \/ p = n => PrintT(<<"DONE", 1>>))

HInit == /\ tr \in 1 .. Len(Trace)
         /\ pos = 0
         /\ st = Initial(Trace[tr].start)
         /\ verdict = Agreement(st, Trace[tr].start)
         /\ Report(verdict, Len(Trace[tr].steps), tr, 0)

HNext == /\ verdict = "ok"
         /\ pos < Len(Trace[tr].steps)
         /\ tr' = tr
         /\ pos' = pos + 1
         /\ st' = Transition(st, Trace[tr].steps[pos'])
         /\ verdict' = Agreement(st', Trace[tr].steps[pos'])
         /\ Report(verdict', Len(Trace[tr].steps), tr, pos')

HSpec == HInit /\ [][HNext]_hvars
=============================================================================
