-------------------------- MODULE DistributionTrace --------------------------
(* What the processes of real parallel runs know about their work.           *)
EXTENDS Distribution, Judge

(* r.seen: per process [sizes, again, bounds, processes]                      *)
Work(r) ==
  LET k(p) == IF r.chunks = 0 THEN r.seen[p].processes ELSE r.chunks
      T == 1 .. Len(r.seen)
  IN IF \E p \in T : ~Divides(r.seen[p].sizes, r.size, k(p)) THEN "uneven or incomplete"
     ELSE IF \E p \in T : r.seen[p].again # r.seen[p].sizes THEN "sizes depend on bounds"
     ELSE IF \E p \in T : ~Bounds(r.seen[p].bounds, r.seen[p].sizes) THEN "bounds"
     ELSE "ok"

Known(x, p, n) == \* own view of a communicator is consistent
  x.size = Len(x.members) /\ x.rank + 1 \in 1 .. x.size /\ x.members[x.rank + 1] = p

WorkGroups(r) ==
  LET S == 0 .. Len(r.seen) - 1
      all == [p \in S |-> r.seen[p + 1].comm.members]
      col == [p \in S |-> r.seen[p + 1].col.members]
      row == [p \in S |-> r.seen[p + 1].row.members]
  IN IF \E p \in S : ~Known(r.seen[p + 1].col, p, 0) \/ ~Known(r.seen[p + 1].row, p, 0)
     THEN "ranks"
     ELSE IF ~Groups(S, all) \/ ~Groups(S, col) \/ ~Groups(S, row) THEN "no groups"
     ELSE IF \E p \in S : LET T == Elements(all[p])
       IN ~(Elements(col[p]) \subseteq T) \/ ~(Elements(row[p]) \subseteq T)
     THEN "foreign processes"
     ELSE IF \E p \in S : ~Grid(Elements(all[p]), col, row) THEN "no grid"
     ELSE IF \E p \in S : ~Shares(Elements(all[p]), r.size, col, row) THEN "shares"
     ELSE "ok"

(* Memory: node[p] and images[p] as above; seen[p][q]: who has written last
   to the memory of p just after process q has.                              *)
Memory(r) ==
  LET n == Len(r.seen)
      S == 0 .. n - 1
      f(name) == [p \in S |-> r.seen[p + 1].split[name].members]
      node == f("node")
      images == f("images")
      same(p, q) == IF r.single THEN FALSE
        ELSE IF r.shared THEN r.where[p + 1] = r.where[q + 1] ELSE p = q
      size(p) == IF r.single /\ p # 0 THEN 0 ELSE r.elements
  IN IF \E p \in S : \E c \in {"node", "images"} : ~Known(r.seen[p + 1].split[c], p, 0)
     THEN "ranks"
     ELSE IF ~Groups(S, node) \/ ~Groups(S, images) THEN "no groups"
     ELSE IF ~r.single /\ \E p, q \in S : (q \in Elements(node[p])) # same(p, q) THEN "nodes"
     ELSE IF ~Grid(S, node, images) THEN "no grid"
     ELSE IF \E p \in S : r.seen[p + 1].node # r.seen[p + 1].split.node
       \/ r.seen[p + 1].images # r.seen[p + 1].split.images THEN "other communicators"
     ELSE IF \E p \in S : r.seen[p + 1].shape # (IF r.single /\ p # 0 THEN <<0>> ELSE r.shape)
       \/ r.seen[p + 1].dtype # r.dtype THEN "shape or type"
     ELSE IF r.elements > 0 /\ \E p \in S : size(p) > 0 /\ \E q \in S : size(q) > 0 /\
       LET W == {w \in 0 .. q : size(w) > 0 /\ (w = p \/ same(w, p))}
           last == IF W = {} THEN 0 ELSE (CHOOSE w \in W : \A v \in W : v <= w) + 1
       IN W # {} /\ r.seen[p + 1].seen[q + 1] # last
     THEN "wrong memory"
     ELSE IF r.elements > 0 /\ \E p \in S : size(p) > 0 /\ r.seen[p + 1].last # 77
     THEN "not broadcast"
     ELSE "ok"
=============================================================================
