---------------------------- MODULE PurityTrace ----------------------------
(* Judges recorded histories of library calls on shared objects.            *)
EXTENDS Purity, HistoryJudge

(* event: f, par (call and literal parameters), args (names of objects),    *)
(* own (names of objects it may modify), res (digest of result), heap       *)
(* (digests of all objects after the call, including a new one if it joins  *)
(* the objects), exc                                                        *)

Start(o) == [begin |-> Begin(o.heap), why |-> "ok"]

Changed(old, new, own) ==
    CHOOSE x \in DOMAIN old : (\A i \in 1 .. Len(own) : own[i] # x)
        /\ ~ (x \in DOMAIN new /\ new[x] = old[x])

Step(t, e) ==
    IF e.exc # "" THEN [t EXCEPT !.why = e.f \o " failed: " \o e.exc]
    ELSE LET s == t.begin
             key == Key(s.heap, e.f, e.par, e.args)
             out == Outcome(e.heap, e.res, e.own)
         IN [begin |-> After(s, e.heap, key, out),
             why |-> IF ~ Framed(s.heap, e.heap, e.own)
                     THEN e.f \o " changed " \o Changed(s.heap, e.heap, e.own)
                     ELSE IF ~ Repeats(s.memo, key, out)
                     THEN e.f \o " did not repeat its result"
                     ELSE "ok"]

Agree(t, e) == t.why
=============================================================================
