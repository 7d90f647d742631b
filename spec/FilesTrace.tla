----------------------------- MODULE FilesTrace -----------------------------
(* Histories of files written and read by real code.  State: what has last
   been stored under every name.

   op "write"    library writes x
      "respace"  same lines with other spacing
      "foreign"  x written by someone else
      "convert"  a model is read from one file and written to another; the
                 state of the latter follows from that of the former
      "read"     library reads                                               *)
EXTENDS Files, HistoryJudge

Names(o) == {o.names[i] : i \in 1 .. Len(o.names)}
Start(o) == [n \in Names(o) |-> <<>>]

(* What a model keeps of what has been read. *)
Kept(kind, x) ==
  IF kind = "hr"
  THEN LET r == HrRead(x, TRUE)
       IN [x EXCEPT !.R = r.R, !.H = r.H, !.Q = r.H,
                    !.ndegen = [i \in 1 .. Len(r.R) |-> 1]]
  ELSE IF kind = "coupling"
  THEN [x EXCEPT !.G = x.g, !.dk = <<<<[i \in 1 .. Len(x.Rk) |-> 1]>>>>,
                 !.dg = <<<<[i \in 1 .. Len(x.Rg) |-> 1]>>>>]
  ELSE x

Step(s, e) ==
  IF e.op \in {"write", "foreign"} THEN [s EXCEPT ![e.name] = <<e.kind, e.x>>]
  ELSE IF e.op = "convert"
  THEN [s EXCEPT ![e.to] = <<s[e.name][1], Kept(s[e.name][1], s[e.name][2])>>]
  ELSE s

(* The first of the differing lines. *)
Difference(has, wants) ==
  IF Len(has) # Len(wants) THEN "number of lines"
  ELSE LET bad == {i \in 1 .. Len(has) : has[i] # wants[i]}
           i == CHOOSE i \in bad : \A j \in bad : i <= j
       IN "line " \o S(i) \o " (" \o ToString(has[i]) \o " rather than "
          \o ToString(wants[i]) \o ")"

Agree(s, e) ==
  IF e.op = "start" THEN "ok"
  ELSE IF e.exc # "" THEN "raised " \o e.exc
  ELSE IF ~e.kept THEN "argument modified"
  ELSE LET f == s[IF e.op = "convert" THEN e.to ELSE e.name]
  IN IF e.op = "read"
     THEN LET r == TLCEval(Canonical(f[1], f[2], e.divide, e.pick))
          IN IF e.result = r THEN "ok"
             ELSE IF DOMAIN e.result # DOMAIN r THEN "fields read from " \o f[1]
             ELSE ToString({k \in DOMAIN r : e.result[k] # r[k]}) \o " read from " \o f[1]
     ELSE IF ~e.layout THEN "ok" \* not specified
     ELSE LET L == TLCEval(Encode(f[1], f[2]))
          IN IF e.lines = L THEN "ok" ELSE Difference(e.lines, L) \o " of " \o f[1]
=============================================================================
