------------------------------- MODULE Purity -------------------------------
(* A heap of named objects (arrays, lists, dictionaries, models, the global  *)
(* state of the library) on which library functions are called.              *)
(*                                                                           *)
(* state:  heap   function from names to the content of objects (digests)    *)
(*         memo   function from <<call, contents of all arguments>> to the   *)
(*                content of the result (and of modified objects) then seen  *)
(*                                                                           *)
(* A call may read its arguments and may modify only what it owns, i.e., the *)
(* object whose method it is when this is documented to modify its object.   *)
(* Its outcome is a function of what it reads.                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Begin(heap) == [heap |-> heap, memo |-> <<>>]

(* What a call depends on: its name, parameters, contents of arguments. *)
Key(heap, f, par, args) ==
    <<f, par, [i \in 1 .. Len(args) |-> heap[args[i]]]>>

(* What a call yields: its result and the contents of what it owns. *)
Outcome(heap, res, own) == <<res, [i \in 1 .. Len(own) |-> heap[own[i]]]>>

Known(memo, key) == \E i \in 1 .. Len(memo) : memo[i][1] = key

Recall(memo, key) == (CHOOSE i \in 1 .. Len(memo) : memo[i][1] = key)

(* Frame condition: everything that is not owned keeps its content. *)
Framed(old, new, own) ==
    \A x \in DOMAIN old : (\A i \in 1 .. Len(own) : own[i] # x) =>
        x \in DOMAIN new /\ new[x] = old[x]

Repeats(memo, key, outcome) ==
    Known(memo, key) => memo[Recall(memo, key)][2] = outcome

After(s, new, key, outcome) ==
    [heap |-> new, memo |-> IF Known(s.memo, key) THEN s.memo
                            ELSE Append(s.memo, <<key, outcome>>)]
=============================================================================
