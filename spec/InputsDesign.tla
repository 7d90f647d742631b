----------------------------- MODULE InputsDesign -----------------------------
(* All ways of writing small namelists: case, spacing, separators, comments,
   formats, quotes, order, and indices must not matter.                       *)
EXTENDS Inputs

CONSTANT Depth

VARIABLES text, want, state, steps, name
vars == <<text, want, state, steps, name>>

V(t, v) == [t |-> t, v |-> v]

(* literals of same value *)
Literals == {
  <<<<"7">>, V("integer", "7e0")>>, <<<<"+", "0", "7">>, V("integer", "7e0")>>,
  <<<<"-", "2", "0">>, V("integer", "-2e1")>>,
  <<<<".", "5">>, V("real", "5e-1")>>, <<<<"5", "d", "-", "1">>, V("real", "5e-1")>>,
  <<<<"0", ".", "0", "5", "0", "E", "+", "0", "1">>, V("real", "5e-1")>>,
  <<<<"0", ".">>, V("real", "0e0")>>,
  <<<<".", "t", "r", "u", "e", ".">>, V("logical", "true")>>, <<<<"F">>, V("logical", "false")>>,
  <<<<"'", "/", "=", "'">>, V("string", "/=")>>, <<<<"\"", "/", "=", "\"">>, V("string", "/=")>>,
  <<<<"\"", "!", "'", ",", " ", "T", "\"">>, V("string", "!', T")>>,
  <<<<"'", "'">>, V("string", "")>>}

Keys2 == {<<<<"k">>, "k", 1>>, <<<<"K">>, "k", 1>>, <<<<"k", "(", "2", ")">>, "k", 2>>,
          <<<<"k", " ", "(", "1", ")">>, "k", 1>>, <<<<"l", "2">>, "l2", 1>>}
Equals == {<<"=">>, <<" ", "=", "\n">>}
Gaps == {<<"\n">>, <<" ">>, <<",">>, <<" ", ";", " ">>,
         <<" ", "!", "'", "/", "k", "=", "1", "\n">>}
Opens == {<<"&", "g", "\n">>, <<"&", "G", " ">>, <<"t", "=", "1", "\n", "&", "g", "!", "&", "\n">>}
Closes == {<<"/">>, <<"\n", "/", "\n", "k", "=", "3">>}

Init == /\ text = <<>> /\ want = [k \in {} |-> <<>>] /\ state = "outside"
        /\ steps = 0 /\ name = ""
Open == /\ state = "outside"
        /\ name = ""
        /\ \E o \in Opens : text' = text \o o
        /\ state' = "inside" /\ name' = "g" /\ UNCHANGED <<want, steps>>
Assigned(k, n, vs) ==
  LET old == IF k \in DOMAIN want THEN want[k] ELSE <<>>
      one == Store(old, n, vs[1])
  IN Put(want, k, IF Len(vs) = 1 THEN one ELSE Store(one, n + 1, vs[2]))
Set == /\ state = "inside"
       /\ steps < Depth
       /\ steps' = steps + 1
       /\ \E k \in Keys2, e \in Equals, l \in Literals, g \in Gaps,
             more \in {<<>>, <<<<"4">>, V("integer", "4e0")>>} :
            /\ (steps > 0 => e = <<"=">> /\ g \in {<<" ">>, <<",">>}) \* fewer combinations
            /\ text' = (((text \o k[1]) \o e) \o l[1])
                       \o (IF more = <<>> THEN g ELSE (g \o more[1]) \o <<"\n">>)
            /\ want' = Assigned(<<"g", k[2]>>, k[3],
                                IF more = <<>> THEN <<l[2]>> ELSE <<l[2], more[2]>>)
       /\ UNCHANGED <<state, name>>
Close == /\ state = "inside"
         /\ \E c \in Closes : text' = text \o c
         /\ state' = "outside"
         /\ UNCHANGED <<want, steps, name>>
Next == Open \/ Set \/ Close
Spec == Init /\ [][Next]_vars

Parsed == state = "outside" => Namelists(text) = want
=============================================================================
