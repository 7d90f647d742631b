-------------------------------- MODULE Mpi --------------------------------
(* Message passing with shared memory.

   A behaviour is a sequence of events of ranks 1 .. n: collective calls
   (posted at the moment of the event; a call has returned when the next event
   of the same rank is seen), "local" writes to shared memory and the "end" of
   a rank with the results it hands over.

   Collective calls complete as early as the standard permits: the root of a
   distribution does not wait for anyone, everybody else waits for the root;
   contributors to a collection do not wait, the root waits for everybody; all
   other collectives synchronise all members.  Nothing else orders events, so
   vector clocks that follow these rules decide which accesses to shared
   memory are ordered in EVERY execution.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

FromRoot == {"Bcast", "bcast", "Scatter", "Scatterv", "scatter"}
ToRoot == {"Gather", "Gatherv", "gather", "Reduce", "reduce"}
Vector == {"Scatter", "Scatterv"}
Collect == {"Gather", "Gatherv"}
Everyone == {"Allgather", "Allgatherv"}
Typed == {"Bcast", "Reduce", "Allreduce"} \cup Vector \cup Collect \cup Everyone

Max(a, b) == IF a > b THEN a ELSE b
MaxOf(S) == CHOOSE a \in S : \A b \in S : b <= a

(* May a call of rank r return, given the posts of the instance so far?      *)
MayReturn(post, members, P) ==
  LET here == {p.rank : p \in P}
      root == members[post.root + 1]
      all == \A i \in 1 .. Len(members) : members[i] \in here
  IN IF post.op \in FromRoot THEN post.rank = root \/ root \in here
     ELSE IF post.op \in ToRoot THEN post.rank # root \/ all
     ELSE all

(* Whose preceding events are ordered before the return of the call?         *)
Sources(post, members, P) ==
  LET root == members[post.root + 1]
  IN IF post.op \in FromRoot THEN {p \in P : p.rank = root}
     ELSE IF post.op \in ToRoot
          THEN IF post.rank = root THEN P ELSE {}
     ELSE P

Join(clock, posts) ==
  [r \in DOMAIN clock |-> MaxOf({clock[r]} \cup {p.clock[r] : p \in posts})]

Position(members, r) == CHOOSE i \in 1 .. Len(members) : members[i] = r

(* Two posts of the same instance must fit together.                         *)
Fit(a, b, members) ==
  LET root == members[a.root + 1]
      A == IF a.rank = root THEN a ELSE b \* root first, if involved
      B == IF a.rank = root THEN b ELSE a
      i == Position(members, B.rank)
  IN IF a.op # b.op THEN "different operations"
     ELSE IF a.op \in FromRoot \cup ToRoot /\ a.root # b.root THEN "different roots"
     ELSE IF a.op \notin Typed THEN "ok"
     ELSE IF a.op \in {"Bcast", "Reduce", "Allreduce"}
          THEN IF a.dtype # b.dtype THEN "different types"
               ELSE IF a.count # b.count THEN "different counts"
               ELSE "ok"
     ELSE IF a.op \in Everyone
          THEN IF a.dtype # b.dtype THEN "different types"
               ELSE IF a.counts # b.counts THEN "different counts"
               ELSE "ok"
     ELSE IF A.rank # root THEN "ok" \* only the root knows the counts
     ELSE IF A.into # B.dtype THEN "different types"
     ELSE IF A.counts[i] # B.count THEN "different counts"
     ELSE "ok"

(* What a post must satisfy on its own.                                      *)
Sound(a, members) ==
  IF a.op \in Everyone /\ a.counts[Position(members, a.rank)] # a.count
  THEN "different counts"
  ELSE IF a.op \in Everyone \cup {"Allreduce"} /\ a.into # a.dtype
  THEN "different types"
  ELSE IF a.op = "Reduce" /\ a.rank = members[a.root + 1] /\ a.into # a.dtype
  THEN "different types"
  ELSE IF a.op \in Vector \cup Collect /\ a.rank = members[a.root + 1]
    /\ a.counts[Position(members, a.rank)] # a.count
  THEN "different counts"
  ELSE "ok"

(* Accesses [win, lo, hi, write, rank, time] to shared memory.               *)
Overlap(a, b) == a.win = b.win /\ a.lo < b.hi /\ b.lo < a.hi

Race(a, clock, acc) ==
  \E b \in acc : /\ b.rank # a.rank
                 /\ (a.write \/ b.write)
                 /\ b.time > clock[b.rank]
                 /\ Overlap(a, b)

Accesses(s, r, time) ==
     {[win |-> s.reads[i][1], lo |-> s.reads[i][2], hi |-> s.reads[i][3],
       write |-> FALSE, rank |-> r, time |-> time] : i \in 1 .. Len(s.reads)}
\cup {[win |-> s.writes[i][1], lo |-> s.writes[i][2], hi |-> s.writes[i][3],
       write |-> TRUE, rank |-> r, time |-> time] : i \in 1 .. Len(s.writes)}

(* -- the state of the machine --------------------------------------------- *)

None == [comm |-> -1, number |-> -1]

Begin(n, comms) ==
  [n |-> n, comms |-> comms,
   clock |-> [r \in 1 .. n |-> [q \in 1 .. n |-> 0]],
   pend |-> [r \in 1 .. n |-> None],
   made |-> [r \in 1 .. n |-> <<>>], \* the sequence of calls of each rank
   posts |-> {}, acc |-> {}, ended |-> {}, verdict |-> "ok"]

Members(x, c) == LET k == CHOOSE i \in 1 .. Len(x.comms) : x.comms[i][1] = c
                 IN x.comms[k][2]

Instance(x, p) == {q \in x.posts : q.comm = p.comm /\ q.number = p.number}

(* The pending call of rank r, if any, has returned.                         *)
Return(x, r) ==
  IF x.pend[r] = None THEN x
  ELSE LET members == Members(x, x.pend[r].comm)
           P == Instance(x, x.pend[r])
           mine == CHOOSE p \in P : p.rank = r
           last == Len(members) = Cardinality(P)
                   /\ \A p \in P : p.rank = r \/ p.returned
       IN IF ~MayReturn(mine, members, P)
          THEN [x EXCEPT !.verdict = "returned too early"]
          ELSE [x EXCEPT
            !.pend[r] = None,
            !.clock[r] = Join(@, Sources(mine, members, P)),
            !.posts = IF last THEN @ \ P
                      ELSE (@ \ {mine}) \cup {[mine EXCEPT !.returned = TRUE]}]

Access(x, s, r) ==
  LET now == Accesses(s, r, x.clock[r][r])
      known(a) == \A q \in 1 .. x.n : x.clock[q][a.rank] >= a.time
  IN IF now = {} THEN x
     ELSE [x EXCEPT
       !.verdict = IF @ # "ok" THEN @
                   ELSE IF \E a \in now : Race(a, x.clock[r], x.acc)
                   THEN IF s.op = "local" THEN "unordered write to shared memory"
                        ELSE "unordered read of shared memory"
                   ELSE @,
       !.acc = {a \in @ : ~known(a)} \cup now]

Post(x, s, r) ==
  LET members == Members(x, s.comm)
      post == [comm |-> s.comm, number |-> s.number, rank |-> r, op |-> s.op,
        root |-> s.root, dtype |-> s.dtype, into |-> s.into, count |-> s.count,
        counts |-> s.counts, clock |-> x.clock[r], returned |-> FALSE]
      P == Instance(x, post)
      clash == {Fit(post, p, members) : p \in P} \cup {Sound(post, members)}
  IN [x EXCEPT
       !.pend[r] = [comm |-> s.comm, number |-> s.number],
       !.made[r] = Append(@, <<s.comm, s.number>>),
       !.posts = @ \cup {post},
       !.verdict = IF @ # "ok" \/ clash = {"ok"} THEN @
                   ELSE CHOOSE v \in clash : v # "ok"]

(* Would everybody get through if all collectives synchronised all members?  *)
RECURSIVE Strong(_, _)
Strong(x, pos) ==
  LET at(r) == IF pos[r] > Len(x.made[r]) THEN <<-1, -1>> ELSE x.made[r][pos[r]]
      ready(r) == LET m == Members(x, at(r)[1])
                  IN \A i \in 1 .. Len(m) : at(m[i]) = at(r)
      R == {r \in 1 .. x.n : at(r)[1] # -1 /\ ready(r)}
  IN IF R = {} THEN \A r \in 1 .. x.n : pos[r] > Len(x.made[r])
     ELSE Strong(x, TLCEval([r \in 1 .. x.n |-> pos[r] + (IF r \in R THEN 1 ELSE 0)]))

Stop(x) ==
  [x EXCEPT !.verdict =
    IF @ # "ok" THEN @
    ELSE IF x.ended # 1 .. x.n THEN "deadlock"
    ELSE IF \E p \in x.posts : Cardinality(Instance(x, p)) < Len(Members(x, p.comm))
    THEN "call without partner"
    ELSE IF ~Strong(x, [r \in 1 .. x.n |-> 1]) THEN "deadlock if calls synchronise"
    ELSE "ok"]

Tick(x, r) == [x EXCEPT !.clock[r][r] = @ + 1]

Advance(x, s) ==
  IF x.verdict # "ok" THEN x
  ELSE IF s.op = "stop" THEN Stop(x)
  ELSE LET r == s.rank
           y == Tick(Return(x, r), r)
           z == Access(y, s, r)
       IN IF s.op = "local" THEN z
          ELSE IF s.op = "end" THEN [z EXCEPT !.ended = @ \cup {r}]
          ELSE Post(z, s, r)
=============================================================================
