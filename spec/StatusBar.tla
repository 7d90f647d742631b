------------------------------- MODULE StatusBar -------------------------------
(* Progress bars on one process.  A bar that may not print (no steps, another bar
   active, display off) stays silent for ever; the active bar has printed width *
   counter \div count characters (its quota) and releases the display at the end. *)
EXTENDS Integers, Sequences

Free == 0
(* display: number of the active bar or Free; bars: sequence of records *)
Fresh(count, width, on) == [count |-> count, width |-> width, counter |-> 0, on |-> on]

Quota(b) == IF b.count = 0 THEN 0 ELSE (b.width * b.counter) \div b.count

(* what a call prints: title line, number of marks, newline *)
Silent == [title |-> FALSE, marks |-> 0, newline |-> FALSE]

Open(st, count, width, quiet) ==
  LET on == count > 0 /\ st.display = Free /\ ~ quiet IN
  [display |-> IF on THEN Len(st.bars) + 1 ELSE st.display,
   bars |-> Append(st.bars, Fresh(count, width, on)),
   out |-> IF on THEN [title |-> TRUE, marks |-> 0, newline |-> FALSE] ELSE Silent]

Tick(st, n) ==
  IF st.display # n THEN [st EXCEPT !.out = Silent]
  ELSE LET b == st.bars[n]
           c == [b EXCEPT !.counter = @ + 1]
           done == c.counter = c.count
       IN [display |-> IF done THEN Free ELSE n,
           bars |-> [st.bars EXCEPT ![n] = c],
           out |-> [title |-> FALSE, marks |-> Quota(c) - Quota(b), newline |-> done]]
Blank(display) == [display |-> display, bars |-> <<>>, out |-> Silent]
=============================================================================
