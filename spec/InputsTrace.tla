----------------------------- MODULE InputsTrace -----------------------------
(* Histories of an input file handled by real code.  State: what the file (or
   the data that has been read from it) is supposed to contain.

   op "compose"  file e.text written by someone else
      "read"     library reads e.content
      "edit"     option changed by user
      "write"    library writes e.text
      "model"    library writes e.text for model e.x                          *)
EXTENDS Inputs, HistoryJudge

Start(o) == [opts |-> {}]

Set(s) == {s[i] : i \in 1 .. Len(s)}
Given(kind, c) ==
  LET o == {<<x.k, x.v>> : x \in Set(c.opts)}
  IN [k \in DOMAIN c |-> IF k = "opts" THEN o
                         ELSE IF k = "proj" THEN Set(c.proj) ELSE c[k]]

One(t, v) == <<[t |-> t, v |-> v]>>

(* Structure of a mass-spring model. *)
OfModel(x) ==
  LET species == FoldLeft(LAMBDA s, a : IF \E i \in 1 .. Len(s) : s[i][1] = a.s THEN s
                                        ELSE Append(s, <<a.s, a.m, a.s \o ".upf">>), <<>>, x.atoms)
  IN [opts |-> {<<"ibrav", One("integer", "0e0")>>, <<"celldm", One("real", x.alat)>>,
                <<"ntyp", One("integer", ToString(Len(species)) \o "e0")>>,
                <<"nat", One("integer", ToString(Len(x.atoms)) \o "e0")>>}
               \cup {<<o.k, o.v>> : o \in Set(x.opts)},
      species |-> species, coords |-> "crystal",
      atoms |-> [i \in 1 .. Len(x.atoms) |-> <<x.atoms[i].s>> \o x.atoms[i].p],
      ktyp |-> x.ktyp, k |-> x.k, units |-> "alat", cell |-> x.cell]

Step(s, e) ==
  IF e.op = "compose" THEN Content(e.kind, e.text)
  ELSE IF e.op = "edit"
  THEN [s EXCEPT !.opts = {o \in @ : o[1] # e.key} \cup {<<e.key, e.values>>}]
  ELSE IF e.op = "model" THEN OfModel(e.x)
  ELSE s

Different(has, wants) ==
  IF DOMAIN has # DOMAIN wants THEN "fields"
  ELSE ToString([k \in {k \in DOMAIN has : has[k] # wants[k]} |->
         IF k = "opts" THEN <<has[k] \ wants[k], wants[k] \ has[k]>> ELSE <<has[k], wants[k]>>])

Agree(s, e) ==
  IF e.op \in {"start", "compose", "edit"} /\ e.exc = "" THEN "ok"
  ELSE IF e.exc # "" THEN e.op \o " " \o e.kind \o ": raised " \o e.exc
  ELSE IF ~e.kept THEN e.op \o " " \o e.kind \o ": argument modified"
  ELSE LET c == TLCEval(IF e.op = "read" THEN Given(e.kind, e.content)
                        ELSE Content(e.kind, e.text))
       IN IF c = s THEN "ok" ELSE e.op \o " " \o e.kind \o ": " \o Different(c, s)
=============================================================================
