------------------------------ MODULE CouplingOps ------------------------------
(* Design model for couplings: algebra of supercell and symmetrisation,
   checked for every supercell matrix of a small set.                        *)
EXTENDS Coupling, TLC

CONSTANT Depth

VARIABLES c, nph, nel, last
vars == <<c, nph, nel, last>>

C0 == { <<<<0, 0, 0>>, 0, <<0, 0, 0>>, 0, 0, 8, 0>>,
        <<<<1, 0, 0>>, 0, <<0, 1, 0>>, 0, 0, 16, 8>>,
        <<<<0, -1, 0>>, 0, <<1, 0, 0>>, 0, 0, 24, -8>>,
        <<<<1, 1, 0>>, 0, <<1, 0, 0>>, 0, 0, 0, 40>> }
Matrices == {Diag(2, 1, 1), Diag(-1, 2, 1), Diag(1, -3, 1),
             <<<<1, 1, 0>>, <<-1, 1, 0>>, <<0, 0, 1>>>>,
             <<<<0, 1, 0>>, <<1, 0, 0>>, <<0, 0, -1>>>>}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>>
            ELSE LET x == CHOOSE x \in S : \A y \in S : ~Less(y, x)
                 IN <<x>> \o SeqOf(S \ {x})

Init == c = C0 /\ nph = 1 /\ nel = 1 /\ last = <<"start">>
Next == /\ Len(last) <= Depth
        /\ \/ \E M \in Matrices : LET cells == SeqOf(Cells(M)) IN
                /\ nel <= 3
                /\ c' = CSuper(c, nph, nel, M, cells)
                /\ nph' = nph * Len(cells) /\ nel' = nel * Len(cells)
                /\ last' = Append(last, "super")
           \/ /\ CEven(c)
              /\ c' = CSymmetrized(c) /\ UNCHANGED <<nph, nel>>
              /\ last' = Append(last, "sym")
Spec == Init /\ [][Next]_vars

WellFormed == CFunctional(c) /\ \A e \in c : e[2] < nph /\ e[4] < nel /\ e[5] < nel
SymHermitian == CEven(c) => CHermitian(CSymmetrized(c)) /\
                            CSymmetrized(c) = CSymmetrized({[e EXCEPT ![6] = @, ![7] = @] : e \in CSymmetrized(c)})
(* symmetrising commutes with the supercell map *)
Commute == (nel = 1 /\ CEven(c)) => \A M \in Matrices : LET cells == SeqOf(Cells(M)) IN
   CSymmetrized(CSuper(c, nph, nel, M, cells)) = CSuper(CSymmetrized(c), nph, nel, M, cells)
(* g(q, k) = g(-q, k + q)^dagger for Hermitian couplings *)
Reciprocal == (nel <= 2 /\ CHermitian(c)) =>
  \A q \in {<<1, 0, 0>>, <<3, 2, 0>>} : \A k \in {<<0, 1, 0>>, <<2, 1, 3>>} :
    CFourier(c, q, k) = {<<e[1], e[2], e[3], e[5], e[4], e[6], -e[7]>> :
                           e \in CFourier(c, Neg(q), Add(k, q))}
=============================================================================
