---------------------------- MODULE OutputsDesign ----------------------------
(* A reader that only counts numbers recovers documents in which every block of
   Count numbers is broken into lines of at most Width and preceded by Skip lines
   of no interest; several results in one document: the last one counts.        *)
EXTENDS Outputs, TLC

CONSTANTS Blocks, Count, Width, Skip, Results

VARIABLES doc, table, stage, at, left, got
vars == <<doc, table, stage, at, left, got>>

Line(t, v) == [t |-> t, v |-> v]
Block(s) == [i \in 1 .. Skip |-> Line("skip", <<>>)] \o
            [i \in 1 .. Len(Pieces(s, Width)) |-> Line("e", Pieces(s, Width)[i])]
Result(T) == <<Line("end", <<>>)>> \o FlattenSeq([b \in 1 .. Blocks |-> Block(T[b])])
             \o <<Line("other", <<>>)>>

(* the values tell where they come from                                        *)
Table(z) == [b \in 1 .. Blocks |-> [i \in 1 .. Count |-> (100 * z) + (10 * b) + i]]

Init == /\ \E z \in 1 .. Results : table = Table(z)
                                   /\ doc = FlattenSeq([y \in 1 .. z |-> Result(Table(y))])
        /\ stage = "seek" /\ at = 1 /\ left = 0 /\ got = <<>>

More == at <= Len(doc)
Seek == /\ stage = "seek" /\ More
        /\ IF doc[at].t = "end"
           THEN stage' = "skip" /\ left' = Skip /\ got' = <<>>
           ELSE stage' = stage /\ UNCHANGED <<left, got>>
        /\ at' = at + 1
Pass == /\ stage = "skip"
        /\ IF left > 0 THEN left' = left - 1 /\ at' = at + 1 /\ stage' = stage /\ UNCHANGED got
           ELSE stage' = "fill" /\ got' = Append(got, <<>>) /\ UNCHANGED <<left, at>>
Fill == /\ stage = "fill"
        /\ IF Len(Last(got)) < Count
           THEN /\ got' = [got EXCEPT ![Len(got)] = @ \o doc[at].v]
                /\ at' = at + 1 /\ UNCHANGED <<stage, left>>
           ELSE /\ stage' = IF Len(got) < Blocks THEN "skip" ELSE "seek"
                /\ left' = Skip /\ UNCHANGED <<at, got>>
Next == (Seek \/ Pass \/ Fill) /\ UNCHANGED <<doc, table>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == stage = "seek" /\ ~ More
Recovered == Done => got = table
Declared == Done => FlattenSeq(got) = All(After(doc, "end"), "e")
Inside == stage \in {"skip", "fill"} => at <= Len(doc) + 1
Whole == stage = "fill" => Len(Last(got)) <= Count
Terminates == <>Done

(* axes exchanged twice are where they have been                               *)
ASSUME \A d \in {<<2, 3, 2>>, <<1, 2, 3>>, <<3, 1, 2>>} : \A p \in Permutations(1 .. 3) :
  LET s == [i \in 1 .. Size(d) |-> i]
      inv == [j \in 1 .. 3 |-> CHOOSE m \in 1 .. 3 : p[m] = j]
  IN /\ Permuted(Permuted(s, d, p), [j \in 1 .. 3 |-> d[p[j]]], inv) = s
     /\ \A i \in 1 .. Size(d) : Spot(d, Index(d, i)) + 1 = i
=============================================================================
