-------------------------- MODULE EliashbergDesign --------------------------
(* Modes are added one after another to the sums that define the parameters.   *)
EXTENDS Eliashberg

CONSTANTS Modes, Most

VARIABLES C, k
vars == <<C, k>>
Exps == {Soft} \cup (-Largest .. Largest)
r == [q |-> <<0>>, k |-> <<k>>]
V == Strength(r, <<C>>)
Init == C = <<>> /\ k = <<>>
Next == /\ Len(C) < Modes
        /\ \E c \in 0 .. Most, x \in Exps : C' = Append(C, c) /\ k' = Append(k, x)
Spec == Init /\ [][Next]_vars

Hard == {k[i] : i \in {j \in 1 .. Len(k) : k[j] # Soft /\ C[j] > 0}}
(* averages lie between the smallest and the largest energy                    *)
Between2 == V > 0 => \E a, b \in Hard : a * V <= Logarithm(r, <<C>>) /\ Logarithm(r, <<C>>) <= b * V
(* the second moment is not smaller than the logarithmic average               *)
Ordered == V > 0 => LET m == Logarithm(r, <<C>>) \div V
                    IN Flatly(r, <<C>>) * 4 >= V * (2 ^ (m + 2))
(* soft modes do not contribute                                               *)
Silent == (V = 0) = (Hard = {})
Grows == [][Strength([q |-> <<0>>, k |-> <<k'>>], <<C'>>) >= V]_vars

(* stronger coupling and weaker repulsion raise the critical temperature        *)
Lams == {One \div 4, One \div 2, One, 2 * One, 4 * One}
ASSUME \A a, b \in Lams : \A m \in {0, 5, 10, 15} : a <= b => LogTc(a, m) <= LogTc(b, m)
ASSUME \A a \in Lams : \A m, n \in {0, 5, 10, 15} : m <= n => LogTc(a, m) >= LogTc(a, n)
ASSUME \A a \in Lams : \A m \in {0, 10} : \A w \in {One, (3 * One) \div 2, 2 * One} :
    Shape(a, m, w) >= One /\ Shape(a, m, w) <= w
ASSUME Representative(<<<<0, 0>>>>, 1) /\ ~ Representative(<<<<0, 0>>>>, 2)
=============================================================================
