------------------------------- MODULE Judge -------------------------------
(* Trace validation of independent records.

   Every record of the trace describes one call of the real code (inputs and
   observed outputs).  `Judgement` is the specification's total verdict on one
   record: "ok" or the name of the violated clause.  The records are walked in
   CHAINS interleaved chains so that TLC's workers share the work.           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANT Judgement(_)

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == atoi(IOEnv.CHAINS)

ToSet(s) == {s[i] : i \in 1 .. Len(s)}

VARIABLES line, verdict
jvars == <<line, verdict>>

JInit == \E c \in 1 .. Chains : line = c - Chains /\ verdict = "start"

JNext == /\ line + Chains <= Len(Trace)
         /\ line' = line + Chains
         /\ verdict' = Judgement(Trace[line'])
         /\ (verdict' # "ok" => PrintT(<<"BAD", line', verdict'>>) /\ PrintT(<<"NOT OK", 1>>))
         /\ PrintT(<<"DONE", 1>>)

JSpec == JInit /\ [][JNext]_jvars
=============================================================================
