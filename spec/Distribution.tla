---------------------------- MODULE Distribution ----------------------------
(* Division of work and of processes.                                        *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))

(* Block i (0 .. k - 1) of n items.                                          *)
Block(n, k, i) ==
  LET q == n \div k
      m == n % k
      lo == (i * q) + (IF i < m THEN i ELSE m)
  IN [lo |-> lo, hi |-> lo + q + (IF i < m THEN 1 ELSE 0)]

(* Sizes of consecutive blocks: complete, even, larger blocks first.         *)
Divides(sizes, n, k) ==
  /\ Len(sizes) = k
  /\ \A i \in 1 .. k : sizes[i] >= 0
  /\ Sum(sizes) = n
  /\ \A i \in 1 .. k - 1 : sizes[i] >= sizes[i + 1]
  /\ sizes[1] - sizes[k] <= 1

Bounds(b, sizes) ==
  /\ Len(b) = Len(sizes) + 1
  /\ b[1] = 0
  /\ \A i \in 1 .. Len(sizes) : b[i + 1] = b[i] + sizes[i]

(* -- groups of processes -------------------------------------------------
   S: the processes (ranks) divided; g[p]: the members of the group of p in
   the order of their ranks within the group.                                *)
InOrder(s) == \A i \in 1 .. Len(s) - 1 : s[i] < s[i + 1]
Elements(s) == {s[i] : i \in 1 .. Len(s)}

Groups(S, g) ==
  /\ \A p \in S : p \in Elements(g[p]) /\ InOrder(g[p]) /\ Elements(g[p]) \subseteq S
  /\ \A p, q \in S : q \in Elements(g[p]) => g[q] = g[p]

RankIn(g, p) == (CHOOSE i \in 1 .. Len(g[p]) : g[p][i] = p) - 1

(* Two groupings form a grid: no two processes agree in both ranks.          *)
Grid(S, a, b) ==
  \A p, q \in S : p # q => <<RankIn(a, p), RankIn(b, p)>> # <<RankIn(a, q), RankIn(b, q)>>

(* Work on n items by groups: as many heads as can be used, in one group b,
   so that the i-th head of b takes the i-th share.                          *)
Heads(S, a) == {p \in S : RankIn(a, p) = 0}
Shares(S, n, a, b) ==
  /\ Cardinality(Heads(S, a)) = IF Cardinality(S) < n THEN Cardinality(S) ELSE n
  /\ \A p, q \in Heads(S, a) : q \in Elements(b[p])
  /\ \A p \in S : \A q \in Elements(a[p]) : RankIn(b, q) = RankIn(b, p)
=============================================================================
