-------------------------- MODULE DistributionDesign --------------------------
(* The requirement determines the blocks; the groupings used by the library
   (rank modulo and rank divided by the number of shares; node and rank within
   the node) form grids.                                                     *)
EXTENDS Distribution, TLC
CONSTANTS MaxN, MaxK, MaxP
VARIABLES n, k, where
vars == <<n, k, where>>

Init == /\ n \in 0 .. MaxN /\ k \in 1 .. MaxK
        /\ where \in UNION {{w \in [1 .. p -> 1 .. p] : \A i \in 1 .. p :
             w[i] = 1 \/ \E j \in 1 .. i - 1 : w[i] <= w[j] + 1} : p \in 1 .. MaxP}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Own == [i \in 1 .. k |-> Block(n, k, i - 1).hi - Block(n, k, i - 1).lo]

Complete == \A x \in 0 .. n - 1 :
  Cardinality({i \in 0 .. k - 1 : Block(n, k, i).lo <= x /\ x < Block(n, k, i).hi}) = 1
Valid == Divides(Own, n, k)
Only == k <= 3 /\ n <= 5 =>
  \A s \in [1 .. k -> 0 .. n] : Divides(s, n, k) => s = Own

S == 0 .. Len(where) - 1
Sorted(T) == CHOOSE s \in [1 .. Cardinality(T) -> T] : InOrder(s)
By(f(_)) == [p \in S |-> Sorted({q \in S : f(q) = f(p)})]

Col == By(LAMBDA p : p % k)
Row == By(LAMBDA p : p \div k)
WorkGrid == Groups(S, Col) /\ Groups(S, Row) /\ Grid(S, Col, Row) /\ Shares(S, k, Col, Row)

Node == By(LAMBDA p : where[p + 1])
Images == By(LAMBDA p : RankIn(Node, p))
NodeGrid == Groups(S, Node) /\ Groups(S, Images) /\ Grid(S, Node, Images)
=============================================================================
