---------------------------- MODULE PurityDesign ----------------------------
(* Names refer to cells of memory, cells hold contents. Objects derived from *)
(* others refer to fresh cells (Copy = TRUE) or to the cells of their origin *)
(* (Copy = FALSE). Methods modify the cell of their own object in place.     *)
(* Only with copies, the frame condition holds for all sequences of calls,   *)
(* and only then the outcome of calls is a function of what they read.       *)
EXTENDS Purity

CONSTANTS Names, Cells, Values, Depth, Copy

VARIABLES ref, mem, s, ok, n

vars == <<ref, mem, s, ok, n>>

Nil == 0

Heap(r, m) == [x \in {y \in Names : r[y] # Nil} |-> m[r[x]]]

Init ==
    /\ ref = [x \in Names |-> IF x = 1 THEN 1 ELSE Nil]
    /\ mem = [c \in Cells |-> 0]
    /\ s = Begin(Heap(ref, mem))
    /\ ok = TRUE
    /\ n = 0

Free == {c \in Cells : \A x \in Names : ref[x] # c}

Call(f, args, own, res, r, m) ==
    LET heap == Heap(r, m)
        key == Key(s.heap, f, 0, args)
        out == Outcome(heap, res, own)
    IN  /\ ok' = (ok /\ Framed(s.heap, heap, own) /\ Repeats(s.memo, key, out))
        /\ s' = After(s, heap, key, out)
        /\ ref' = r
        /\ mem' = m
        /\ n' = n + 1

(* b = f(a): the new object has the content f of the origin. *)
Derive(a, b) ==
    /\ ref[a] # Nil
    /\ ref[b] = Nil
    /\ IF Copy
       THEN Free # {} /\ LET c == CHOOSE c \in Free : TRUE IN
            Call("derive", <<a>>, <<>>, mem[ref[a]], [ref EXCEPT ![b] = c],
                [mem EXCEPT ![c] = mem[ref[a]]])
       ELSE Call("derive", <<a>>, <<>>, mem[ref[a]],
                [ref EXCEPT ![b] = ref[a]], mem)

(* a.method() increments the content of its own object. *)
Modify(a) ==
    /\ ref[a] # Nil
    /\ Call("modify", <<a>>, <<a>>, 0, ref,
            [mem EXCEPT ![ref[a]] = (mem[ref[a]] + 1) % Values])

(* A pure function of two objects. *)
Read(a, b) ==
    /\ ref[a] # Nil /\ ref[b] # Nil
    /\ Call("read", <<a, b>>, <<>>, mem[ref[a]] + (2 * mem[ref[b]]), ref, mem)

Next ==
    /\ n < Depth
    /\ \/ \E a, b \in Names : Derive(a, b) \/ Read(a, b)
       \/ \E a \in Names : Modify(a)

Spec == Init /\ [][Next]_vars

Pure == ok
=============================================================================
