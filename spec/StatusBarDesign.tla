---------------------------- MODULE StatusBarDesign ----------------------------
(* All histories of creating and updating a few bars; emitted for replay.     *)
EXTENDS StatusBar, TLC, Json
CONSTANTS Depth, Counts, Widths, Most
VARIABLES st, marks, opened, lines, hist
vars == <<st, marks, opened, lines, hist>>
Init == st = Blank(Free) /\ marks = <<>> /\ opened = 0 /\ lines = 0 /\ hist = <<>>
Note(op) == hist' = Append(hist, op)
Next ==
  /\ Len(hist) < Depth
  /\ \/ /\ Len(st.bars) < Most
        /\ \E c \in Counts : \E w \in Widths :
             /\ st' = Open(st, c, w, FALSE)
             /\ marks' = Append(marks, 0)
             /\ opened' = opened + (IF st'.out.title THEN 1 ELSE 0)
             /\ UNCHANGED lines
             /\ Note(<<0, c, w>>)
     \/ \E n \in 1 .. Len(st.bars) :
          /\ st' = Tick(st, n)
          /\ marks' = [marks EXCEPT ![n] = @ + st'.out.marks]
          /\ lines' = lines + (IF st'.out.newline THEN 1 ELSE 0)
          /\ UNCHANGED opened
          /\ Note(<<n, 0, 0>>)
Spec == Init /\ [][Next]_vars

OneAtATime == opened - lines = (IF st.display = Free THEN 0 ELSE 1)
Bounded == \A n \in DOMAIN marks : marks[n] <= st.bars[n].width
Monotone == st.out.marks >= 0
Complete == \A n \in DOMAIN marks :
  st.bars[n].counter > 0 /\ st.bars[n].counter = st.bars[n].count => marks[n] = st.bars[n].width /\ st.display # n
SilentBars == \A n \in DOMAIN marks : ~ st.bars[n].on => marks[n] = 0
Proportional == \A n \in DOMAIN marks : st.bars[n].on => marks[n] = Quota(st.bars[n])
Emit == IF Len(hist) < Depth THEN TRUE ELSE PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
