-------------------------- MODULE LongRangeDesign --------------------------
(* Design model: parameters P with arbitrary long-range contributions, stored
   short-range parts, prepared auxiliary quantities; the total on the mesh.   *)
EXTENDS LongRangeSplit, LongRange

CONSTANTS Params, Depth, Careless

VARIABLES par,     \* current parameters; 0: no long-range terms
          orig,    \* sampled totals
          short,   \* stored short-range parts
          prep,    \* parameters for which auxiliary quantities were prepared
          book, n
vars == <<par, orig, short, prep, book, n>>

Quantities == {"D", "g"}
Lr(p, what) == IF what = "D" THEN 3 * p ELSE 5 * p
Stored(what) == Total(short[what], Lr(IF par = 0 THEN 0 ELSE prep, what))

Init == /\ par \in Params /\ prep = par
        /\ orig = [w \in Quantities |-> IF w = "D" THEN 100 ELSE 200]
        /\ short = [w \in Quantities |-> Split(orig[w], Lr(par, w))]
        /\ book = Begin(100, 200) /\ n = 0

Set == \E p \in Params : /\ p # par /\ par' = p
                         /\ book' = Change(book)
                         /\ UNCHANGED <<orig, short, prep>>

(* An update of one quantity prepares the terms for both.                  *)
Upd(w) == /\ prep' = par
          /\ short' = [short EXCEPT ![w] = Split(orig[w], Lr(IF Careless THEN prep ELSE par, w))]
          /\ book' = Update(book, w)
          /\ UNCHANGED <<par, orig>>

(* Sampling again while settled is harmless.                               *)
Sample == /\ book.settled = Quantities
          /\ orig' = [w \in Quantities |-> Stored(w)]
          /\ UNCHANGED <<par, short, prep, book>>

Next == /\ n < Depth /\ n' = n + 1
        /\ \/ Set \/ Sample \/ \E w \in Quantities : Upd(w)

Spec == Init /\ [][Next]_vars

Kept == \A w \in Quantities : Settled(book, w) => Stored(w) = book[w]
Original == orig["D"] = book.D /\ orig["g"] = book.g

(* ---- theorems on the sums themselves ------------------------------------ *)

Sys(two, s, Q) ==
    [B |-> <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, det |-> 1,
     E |-> <<<<2, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>,
     Z |-> <<<<<<1, 0, 0>>, <<1, 2, 0>>, <<0, 0, -1>>>>, <<<<-1, 1, 0>>, <<0, 1, 0>>, <<0, 0, 2>>>>>>,
     Q |-> IF Q THEN <<<<<<<<1, 0, 0>>, <<0, 0, 1>>, <<0, 1, -1>>>>,
                        <<<<0, 1, 0>>, <<1, 2, 0>>, <<0, 0, 0>>>>,
                        <<<<0, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>>>,
                       <<<<<<0, 0, 1>>, <<0, 0, 0>>, <<1, 0, 0>>>>,
                        <<<<1, 1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>,
                        <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 2>>>>>>>> ELSE <<>>,
     c |-> <<<<0, 0, 0>>, <<1, 0, 1>>>>, rm |-> <<1, 1>>,
     two |-> two, t |-> 1, s |-> s, perp |-> TRUE,
     box |-> IF two THEN <<3, 3, 0>> ELSE <<3, 3, 3>>]

Points == {<<0, 0, 0>>, <<1, 0, 0>>, <<1, 1, 0>>}
Close(x, y) == /\ Abs(x[1] - y[1]) <= x[3] + y[3]
               /\ Abs(x[2] - y[2]) <= x[3] + y[3]
Conj(x) == <<x[1], -x[2], x[3]>>

Hermitian(s, p) == LET D == Dynamical(s, p) IN
    \A i, j \in 1 .. Size(s) : (i - 1) \div 3 # (j - 1) \div 3 =>
        Close(D[i][j], Conj(D[j][i]))
Reversal(s, p) == LET D == Dynamical(s, p)
                      M == Dynamical(s, <<-p[1], -p[2], -p[3]>>)
                  IN \A i, j \in 1 .. Size(s) : Close(D[i][j], Conj(M[i][j]))
Periodic(s, p) == LET D == Dynamical(s, p)
                      M == Dynamical(s, <<p[1] + 2, p[2], p[3]>>)
                  IN \A i, j \in 1 .. Size(s) : Close(D[i][j], M[i][j])
(* rigid translations: sum over atoms of rows vanishes                     *)
RECURSIVE AtomSum(_, _, _, _)
AtomSum(D, i, v, b) == IF b = 0 THEN <<0, 0, 0>>
    ELSE Add(D[i][(3 * (b - 1)) + v], AtomSum(D, i, v, b - 1))
Acoustic(s) == LET D == Dynamical(s, <<0, 0, 0>>) IN
    \A i \in 1 .. Size(s), v \in 1 .. 3 :
        Close(AtomSum(D, i, v, Len(s.Z)), <<0, 0, 8>>)

ASSUME \A Q \in {FALSE, TRUE} : \A x \in {<<FALSE, 0>>, <<TRUE, 0>>, <<TRUE, 3>>} :
    LET s == Sys(x[1], x[2], Q) IN
    /\ Acoustic(s)
    /\ \A p \in Points : Hermitian(s, p) /\ Reversal(s, p)
    /\ Periodic(s, <<1, 0, 0>>)
=============================================================================
