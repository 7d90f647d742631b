----------------------------- MODULE FilesDesign -----------------------------
(* The specified layouts determine the contents: what has last been written
   under a name is what a reader that only knows the lines gets, whatever has
   been stored before under this and other names.                            *)
EXTENDS Files

CONSTANT Depth

VARIABLES disk, last, steps
vars == <<disk, last, steps>>

Num(t) == CHOOSE i \in -9 .. 99 : S(i) = t
Vec(l) == <<Num(l[1]), Num(l[2]), Num(l[3])>>
Drop(l, n) == SubSeq(l, n + 1, Len(l))

(* -- readers (only lines) --------------------------------------------------- *)
DecodeHr(L) ==
  LET size == Num(L[1][1])
      nR == Num(L[2][1])
      first == 2 + ((nR + 14) \div 15)
      l(n, a, b) == L[first + ((n - 1) * size * size) + ((b - 1) * size) + a]
  IN [R |-> [n \in 1 .. nR |-> Vec(l(n, 1, 1))],
      H |-> [n \in 1 .. nR |-> [a \in 1 .. size |-> [b \in 1 .. size |->
              LET m == CHOOSE m \in first + ((n - 1) * size * size) + 1
                                    .. first + (n * size * size) :
                         L[m][4] = S(a) /\ L[m][5] = S(b)
              IN Drop(L[m], 5)]]]]

DecodeWmat(L) ==
  LET head == SelectSeq([i \in 1 .. Len(L) |-> i], LAMBDA i : Len(L[i]) = 3)
      per == Len(L) \div Len(head)
      size == CHOOSE s \in 1 .. per : s * s = per - 1
  IN [R |-> [n \in 1 .. Len(head) |-> Vec(L[head[n]])],
      W |-> [n \in 1 .. Len(head) |-> [a \in 1 .. size |-> [b \in 1 .. size |->
              LET m == CHOOSE m \in head[n] + 1 .. head[n] + per - 1 :
                         L[m][1] = S(a) /\ L[m][2] = S(b)
              IN Drop(L[m], 2)]]]]

DecodeBands(L) ==
  LET nb == Num(L[1][3])
      nk == Num(L[1][5])
      rest == FlattenSeq(Drop(L, 1)) \* spacing does not matter
  IN [k |-> [i \in 1 .. nk |-> SubSeq(rest, ((i - 1) * (3 + nb)) + 1, ((i - 1) * (3 + nb)) + 3)],
      e |-> [n \in 1 .. nb |-> [i \in 1 .. nk |-> rest[((i - 1) * (3 + nb)) + 3 + n]]]]

DecodeXsf(L) ==
  LET nat == Num(L[2][1])
      h == 2 + nat + 3
      n == Vec(L[h + 1])
      d == FlattenSeq(SubSeq(L, h + 6, Len(L) - 2))
  IN [X |-> [i \in 1 .. nat |-> L[2 + i][1]],
      tau |-> [i \in 1 .. nat |-> Drop(L[2 + i], 1)],
      r0 |-> L[h + 2], a |-> <<L[h + 3], L[h + 4], L[h + 5]>>, n |-> n,
      data |-> [i \in 1 .. n[1] |-> [j \in 1 .. n[2] |-> [k \in 1 .. n[3] |->
                 d[(i - 1) + (n[1] * ((j - 1) + (n[2] * (k - 1)))) + 1]]]]]

DecodeQuad(L) ==
  LET t(l) == <<<<l[3], l[8], l[7]>>, <<l[8], l[4], l[6]>>, <<l[7], l[6], l[5]>>>>
  IN [Q |-> [na \in 1 .. (Len(L) - 1) \div 3 |-> [i \in 1 .. 3 |->
              LET m == CHOOSE m \in 2 .. Len(L) : L[m][1] = S(na) /\ L[m][2] = S(i)
              IN t(L[m])]]]

DecodeFlfrc(L) ==
  LET nsp == Num(L[1][1])
      nat == Num(L[1][2])
      b == 4 + nsp + nat
      polar == L[b + 1][1] = "T"
      g == b + 1 + (IF polar THEN 3 + (4 * nat) ELSE 0)
      n == Vec(L[g + 1])
      N == n[1] * n[2] * n[3]
      spec(i) == Num(L[4 + nsp + i][2])
      blk(j1, j2, n1, n2) ==
        CHOOSE z \in 0 .. (9 * nat * nat) - 1 :
          L[g + 2 + (z * (N + 1))] = <<S(j1), S(j2), S(n1), S(n2)>>
      val(j1, j2, n1, n2, m) ==
        LET z == g + 2 + (blk(j1, j2, n1, n2) * (N + 1))
            p == CHOOSE p \in z + 1 .. z + N : SubSeq(L[p], 1, 3) = Ints(m)
        IN L[p][4]
  IN [atoms |-> [i \in 1 .. nat |-> [s |-> L[4 + spec(i)][2], m |-> L[4 + spec(i)][3],
                                     p |-> Drop(L[4 + nsp + i], 2)]],
      alat |-> L[1][4], a |-> <<L[2], L[3], L[4]>>,
      eps |-> IF polar THEN <<L[b + 2], L[b + 3], L[b + 4]>> ELSE <<>>,
      Z |-> IF polar
            THEN [i \in 1 .. nat |-> [j \in 1 .. 3 |-> L[b + 4 + ((i - 1) * 4) + 1 + j]]]
            ELSE <<>>,
      alpha |-> IF polar /\ Len(L[b + 1]) = 2 THEN L[b + 1][2] ELSE "",
      C |-> [n1 \in 1 .. nat |-> [n2 \in 1 .. nat |->
              [m1 \in 1 .. n[1] |-> [m2 \in 1 .. n[2] |-> [m3 \in 1 .. n[3] |->
                [j1 \in 1 .. 3 |-> [j2 \in 1 .. 3 |->
                   val(j1, j2, n1, n2, <<m1, m2, m3>>)]]]]]]]]

Decode(kind, L) == CASE
     kind = "hr" -> DecodeHr(L)
  [] kind = "wmat" -> DecodeWmat(L)
  [] kind = "bands" -> DecodeBands(L)
  [] kind = "xsf" -> DecodeXsf(L)
  [] kind = "quad" -> DecodeQuad(L)
  [] kind = "flfrc" -> DecodeFlfrc(L)

(* -- small contents ------------------------------------------------------------ *)
T3(i, j, k) == "t" \o S((100 * i) + (10 * j) + k) \* all elements differ
V3(i) == <<T3(i, 1, 0), T3(i, 2, 0), T3(i, 3, 0)>>

Lattices == {<<<<0, 0, 0>>>>, <<<<1, 0, 0>>, <<0, 0, 1>>>>, <<<<0, -1, 2>>, <<0, -2, 3>>>>,
             <<<<0, 0, 1>>, <<-1, 0, 0>>, <<0, 0, -1>>>>}

Hrs == {[size |-> s, R |-> R, ndegen |-> [n \in 1 .. Len(R) |-> n],
         H |-> [n \in 1 .. Len(R) |-> [a \in 1 .. s |-> [b \in 1 .. s |->
                 <<T3(n, a, b), "0">>]]],
         Q |-> <<>>] : s \in 1 .. 2, R \in Lattices}
Wmats == {[size |-> s, R |-> R,
           W |-> [n \in 1 .. Len(R) |-> [a \in 1 .. s |-> [b \in 1 .. s |->
                   <<"0", T3(n, a, b)>>]]]] : s \in 1 .. 2, R \in Lattices}
Bands == {[cols |-> c, k |-> [i \in 1 .. nk |-> V3(i)],
           e |-> [n \in 1 .. nb |-> [i \in 1 .. nk |-> T3(n, i, 9)]]] :
          c \in {1, 2, 10}, nk \in 1 .. 2, nb \in 1 .. 3}
Xsfs == {[X |-> [i \in 1 .. nat |-> "X"], tau |-> [i \in 1 .. nat |-> V3(i)],
          r0 |-> V3(4), a |-> <<V3(5), V3(6), V3(7)>>, n |-> <<n1, n2, n3>>, header |-> FALSE,
          data |-> [i \in 1 .. n1 |-> [j \in 1 .. n2 |-> [k \in 1 .. n3 |-> T3(i, j, k)]]]] :
         nat \in 1 .. 2, n1 \in 1 .. 3, n2 \in 1 .. 2, n3 \in 1 .. 3}
Quads == {[Q |-> [na \in 1 .. nat |-> [i \in 1 .. 3 |-> [j \in 1 .. 3 |-> [k \in 1 .. 3 |->
                   IF j < k THEN T3((10 * na) + i, j, k) ELSE T3((10 * na) + i, k, j)]]]]] :
          nat \in 1 .. 3}
Flfrcs == {[alat |-> "7", a |-> <<V3(1), V3(2), V3(3)>>,
            atoms |-> [i \in 1 .. nat |-> [s |-> IF same THEN "X" ELSE "X" \o S(i),
                                           m |-> IF iso THEN "m" ELSE "m" \o S(i),
                                           p |-> V3(i)]],
            eps |-> IF polar THEN <<V3(4), V3(5), V3(6)>> ELSE <<>>,
            Z |-> IF polar THEN [i \in 1 .. nat |-> <<V3(i), V3(i + 1), V3(i + 2)>>]
                  ELSE <<>>,
            alpha |-> IF polar /\ same THEN "2" ELSE "", n |-> n,
            C |-> [n1 \in 1 .. nat |-> [n2 \in 1 .. nat |->
                    [m1 \in 1 .. n[1] |-> [m2 \in 1 .. n[2] |-> [m3 \in 1 .. n[3] |->
                      [j1 \in 1 .. 3 |-> [j2 \in 1 .. 3 |->
                         T3((100 * m1) + (10 * m2) + m3, n1, n2) \o T3(j1, j2, 0)]]]]]]]] :
           nat \in 1 .. 2, same \in BOOLEAN, iso \in BOOLEAN, polar \in BOOLEAN,
           n \in {<<1, 1, 1>>, <<2, 1, 3>>}}

Contents == {<<"hr", x>> : x \in Hrs} \cup {<<"wmat", x>> : x \in Wmats}
            \cup {<<"bands", x>> : x \in Bands} \cup {<<"xsf", x>> : x \in Xsfs}
            \cup {<<"quad", x>> : x \in Quads} \cup {<<"flfrc", x>> : x \in Flfrcs}

(* -- histories of small files ----------------------------------------------------- *)
Few == {<<"hr", CHOOSE x \in Hrs : x.size = 2>>, <<"quad", CHOOSE x \in Quads : Len(x.Q) = 1>>,
        <<"xsf", CHOOSE x \in Xsfs : x.n = <<3, 2, 3>>>>}

Names == {"one", "two"}

Init == /\ disk = [n \in Names |-> <<>>]
        /\ last = [n \in Names |-> <<>>]
        /\ steps = 0
Write(n, c) ==
  /\ disk' = [disk EXCEPT ![n] = Encode(c[1], c[2])]
  /\ last' = [last EXCEPT ![n] = c]
Next == /\ steps < Depth
        /\ steps' = steps + 1
        /\ \E n \in Names, c \in IF steps = 0 THEN Contents ELSE Few : Write(n, c)
Spec == Init /\ [][Next]_vars

(* What is read is what has been written last. *)
Faithful == \A n \in Names : last[n] # <<>> =>
  Decode(last[n][1], disk[n]) = Canonical(last[n][1], last[n][2], FALSE, <<>>)

(* Different contents have different files. *)
Distinguished == \A m, n \in Names : last[m] # <<>> /\ last[n] # <<>> /\ last[m][1] = last[n][1] =>
  (disk[m] = disk[n] => Canonical(last[m][1], last[m][2], FALSE, <<>>)
                        = Canonical(last[n][1], last[n][2], FALSE, <<>>))
=============================================================================
