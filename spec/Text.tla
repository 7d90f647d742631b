-------------------------------- MODULE Text --------------------------------
(* Characters, words, lines, and numbers.  A text is a sequence of strings of
   one character each.                                                       *)
EXTENDS Integers, Sequences, TLC, SequencesExt, Folds

Uppers == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M",
            "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
Lowers == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m",
            "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
Cases == [c \in {Uppers[i] : i \in 1 .. 26} |-> Lowers[CHOOSE i \in 1 .. 26 : Uppers[i] = c]]
Upper == DOMAIN Cases
Low(c) == IF c \in Upper THEN Cases[c] ELSE c
Lower(w) == [i \in 1 .. Len(w) |-> Low(w[i])]

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Blanks == {" ", "\t", "\n"}

Join(w) == FoldLeft(LAMBDA s, c : s \o c, "", w)
Numeral(c) == CHOOSE i \in 0 .. 9 : ToString(i) = c
Natural(w) == FoldLeft(LAMBDA n, c : (10 * n) + Numeral(c), 0, w)

(* Sequence of nonempty parts between separators. *)
Split(t, seps) ==
  LET f == FoldLeft(LAMBDA s, c :
             IF c \in seps
             THEN IF s.cur = <<>> THEN s ELSE [out |-> Append(s.out, s.cur), cur |-> <<>>]
             ELSE [s EXCEPT !.cur = Append(@, c)], [out |-> <<>>, cur |-> <<>>], t)
  IN IF f.cur = <<>> THEN f.out ELSE Append(f.out, f.cur)
Lines(t) == Split(t, {"\n"}) \* empty ones are of no importance

Has(w, c) == \E i \in 1 .. Len(w) : w[i] = c
First(w, C) == CHOOSE i \in 1 .. Len(w) : w[i] \in C /\ \A j \in 1 .. i - 1 : w[j] \notin C
Until(w, C) == IF \E i \in 1 .. Len(w) : w[i] \in C THEN SubSeq(w, 1, First(w, C) - 1) ELSE w
After(w, C) == SubSeq(w, First(w, C) + 1, Len(w))
Without(w, C) == SelectSeq(w, LAMBDA c : c \notin C)

(* Words of a line without comment. *)
WordsOf(l, extra) == Split(Until(l, {"!", "#"}), Blanks \cup extra)

(* Without blanks at beginning and end. *)
Trim(w) ==
  LET in == {i \in 1 .. Len(w) : w[i] \notin Blanks}
  IN IF in = {} THEN <<>>
     ELSE SubSeq(w, CHOOSE i \in in : \A j \in in : i <= j, CHOOSE i \in in : \A j \in in : j <= i)

(* Number: significant digits and power of ten as string. *)
Signless(w) == IF w # <<>> /\ w[1] \in {"+", "-"} THEN Tail(w) ELSE w
Signed(w) == LET n == Natural(Signless(w)) IN IF w[1] = "-" THEN -n ELSE n
Number(w) ==
  LET body == Signless(w)
      mant == Until(body, {"e", "E", "d", "D"})
      expo == IF Len(mant) < Len(body) THEN Signed(SubSeq(body, Len(mant) + 2, Len(body))) ELSE 0
      all == Without(mant, {"."})
      frac == IF Has(mant, ".") THEN Len(After(mant, {"."})) ELSE 0
      on == {i \in 1 .. Len(all) : all[i] # "0"}
      a == CHOOSE i \in on : \A j \in on : i <= j
      b == CHOOSE i \in on : \A j \in on : j <= i
  IN IF on = {} THEN "0e0"
     ELSE (IF w[1] = "-" THEN "-" ELSE "") \o Join(SubSeq(all, a, b)) \o "e"
          \o ToString((expo - frac) + (Len(all) - b))
IsNumber(w) ==
  LET b == Signless(w)
  IN /\ b # <<>>
     /\ b[1] \in Digits \cup {"."}
     /\ \A i \in 1 .. Len(b) : b[i] \in Digits \cup {".", "e", "E", "d", "D", "+", "-"}
IsInteger(w) == \A i \in 1 .. Len(Signless(w)) : Signless(w)[i] \in Digits
Numbers(ws) == [i \in 1 .. Len(ws) |-> Number(ws[i])]
=============================================================================
