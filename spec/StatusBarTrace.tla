----------------------------- MODULE StatusBarTrace -----------------------------
(* Conformance of misc.StatusBar: text printed by every call, who is active.  *)
EXTENDS StatusBar, HistoryJudge

\* other processes never own the display
\* marks may be rounded in any way; done: marks printed so far by the real bar
Start(s) == [done |-> <<>>] @@ Blank(IF s.rank = 0 THEN Free ELSE -1)
Step(x, s) == [done |-> IF s.op = "open" THEN Append(x.done, 0) ELSE [x.done EXCEPT ![s.bar] = @ + s.out.marks]]
              @@ (IF s.op = "open" THEN Open(x, s.count, s.width, s.quiet) ELSE Tick(x, s.bar))
Abs(x) == IF x < 0 THEN -x ELSE x
Progress(x, s) ==
  LET b == x.bars[s.bar]  d == x.done[s.bar] IN
  IF ~ b.on THEN d = 0
  ELSE /\ (d = b.width) = (b.counter = b.count)
       /\ d <= b.width
       /\ Abs((d * b.count) - (b.width * b.counter)) <= b.count
Agree(x, s) ==
  IF s.exc # "" THEN "raised " \o s.exc
  ELSE IF s.op = "start" THEN "ok"
  ELSE IF s.out.rest # 0 THEN "unexpected text"
  ELSE IF s.out.title # x.out.title THEN (IF s.out.title THEN "prints although another bar is active" ELSE "no title")
  ELSE IF s.out.title /\ (~ s.out.named \/ s.out.columns # s.width) THEN "wrong title"
  ELSE IF (s.op = "open" /\ s.out.marks # 0) \/ (s.op # "open" /\ ~ Progress(x, s)) THEN "wrong progress"
  ELSE IF s.out.newline # x.out.newline THEN "wrong end of bar"
  ELSE IF s.display # x.display THEN "wrong owner of display"
  ELSE "ok"
=============================================================================
