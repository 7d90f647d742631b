------------------------ MODULE LongRangeSplitTrace ------------------------
(* Judges histories of sampling, changing parameters, and updating.

   begin  q (mesh points in quarters), k, D, g: original totals
   set    some parameter changed          sample  total sampled again
   D, g   total short-range part updated  none    short-range part updated
   Every event has `see`: totals observed at mesh points (possibly shifted by
   reciprocal lattice vectors), in fixed-point representation.              *)
EXTENDS LongRangeSplit, HistoryJudge, FiniteSets

Unit == 65536
Abs(x) == IF x < 0 THEN -x ELSE x

Start(o) == [book |-> Begin(o.D, o.g), q |-> o.q, k |-> o.k, cells |-> <<<<0, 0, 0>>>>,
             rows |-> o.rows, moved |-> FALSE, exc |-> ""]

ChangeOf(s, e) ==
    CASE e.op = "set" -> [s EXCEPT !.book = Change(@)]
      [] e.op = "D" -> [s EXCEPT !.book = Update(@, "D"),
                        !.rows = IF @ = "" /\ e.plain THEN e.rows ELSE @]
      [] e.op = "g" -> [s EXCEPT !.book = Update(@, "g")]
      [] e.op = "super" -> [s EXCEPT !.cells = e.cells, !.moved = TRUE]
      [] OTHER -> s
Step(s, e) == [ChangeOf(s, e) EXCEPT !.exc = e.exc]

Where(list, p) == CHOOSE i \in 1 .. Len(list) :
    \A x \in 1 .. 3 : (list[i][x] - p[x]) % 4 = 0

Turned(n, z) == CASE n % 4 = 0 -> z
                  [] n % 4 = 1 -> <<-z[2], z[1]>>
                  [] n % 4 = 2 -> <<-z[1], -z[2]>>
                  [] n % 4 = 3 -> <<z[2], -z[1]>>

RECURSIVE Gather(_, _, _, _, _, _)
(* sum over cells of e^(i q cell) times the element between home and cell  *)
Gather(row, cells, size, p, j, n) ==
    IF n = 0 THEN <<0, 0>>
    ELSE LET c == cells[n]
             z == Turned((p[1] * c[1]) + (p[2] * c[2]) + (p[3] * c[3]),
                         row[((n - 1) * size) + j])
             r == Gather(row, cells, size, p, j, n - 1)
         IN <<r[1] + z[1], r[2] + z[2]>>

Same(z, w, slack) == /\ Abs(z[1] - (Unit * w[1])) <= slack
                     /\ Abs(z[2] - (Unit * w[2])) <= slack

(* The wave vectors of a supercell are summed within another cutoff.       *)
RightD(s, o) ==
    LET want == s.book.D[Where(s.q, o.p)]
        n == Len(want)
    IN \A i, j \in 1 .. n :
        Same(Gather(o.m[i], s.cells, n, o.p, j, Len(s.cells)), want[i][j],
             IF s.moved THEN 64 ELSE 2)

Rightg(s, o) ==
    LET want == s.book.g[Where(s.q, o.p)][Where(s.k, o.k)]
    IN /\ Len(o.m) = Len(want)
       /\ \A x \in 1 .. Len(want) : \A a \in 1 .. Len(want[x]) : \A b \in 1 .. Len(want[x]) :
            Same(o.m[x][a][b], want[x][a][b], 2)

Agree(s, e) ==
    IF s.exc # "" THEN s.exc
    ELSE IF Settled(s.book, "D")
            /\ \E n \in 1 .. Len(e.seeD) : ~ RightD(s, e.seeD[n])
    THEN "total dynamical matrix on original mesh changed"
    ELSE IF Settled(s.book, "g")
            /\ \E n \in 1 .. Len(e.seeg) : ~ Rightg(s, e.seeg[n])
    THEN "total coupling on original mesh changed"
    ELSE IF e.plain /\ e.rows # s.rows
    THEN "short-range model changed without long-range terms"
    ELSE "ok"
=============================================================================
