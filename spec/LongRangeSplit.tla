--------------------------- MODULE LongRangeSplit ---------------------------
(* Bookkeeping of short-range and long-range parts on the original mesh.

   For every quantity (phonons "D", couplings "g") the model stores what is
   left of the sampled total after subtracting the long-range terms at the time
   of the last update.  A quantity is settled as long as the parameters have not
   changed since.                                                            *)
EXTENDS Integers, Sequences

Begin(D, g) == [D |-> D, g |-> g, settled |-> {"D", "g"}]

Change(s) == [s EXCEPT !.settled = {}]
Update(s, what) == [s EXCEPT !.settled = @ \cup {what}]
Settled(s, what) == what \in s.settled
=============================================================================
