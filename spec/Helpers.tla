-------------------------------- MODULE Helpers --------------------------------
(* Selection expressions, orbital names, groups of points, lookups.           *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

(* An expression is a sequence of alternatives, an alternative a sequence of
   parts, a part a literal or a bracketed expression.  It denotes the bag
   (here: sequence, up to order) of strings spelled out by distributing.      *)
RECURSIVE Spell(_), SpellAlternative(_), Cross(_, _), Prefixed(_, _)
Prefixed(s, ts) == IF ts = <<>> THEN <<>> ELSE <<s \o Head(ts)>> \o Prefixed(s, Tail(ts))
Cross(ss, ts) == IF ss = <<>> THEN <<>> ELSE Prefixed(Head(ss), ts) \o Cross(Tail(ss), ts)
SpellPart(p) == IF p.group THEN Spell(p.alts) ELSE <<p.lit>>
SpellAlternative(parts) == IF parts = <<>> THEN <<"">>
                           ELSE Cross(SpellPart(Head(parts)), SpellAlternative(Tail(parts)))
Spell(alts) == IF alts = <<>> THEN <<>> ELSE SpellAlternative(Head(alts)) \o Spell(Tail(alts))

Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])

(* An orbital is a tuple of name components (element, number, n, l, m); empty
   components of a selection match everything.                                *)
Matches(sel, orb) == \A i \in DOMAIN sel : sel[i] = "" \/ sel[i] = orb[i]
Selected(sels, orbs) == {o \in DOMAIN orbs : \E s \in DOMAIN sels : Matches(sels[s], orbs[o])}
Total(values, S) == FoldSet(LAMBDA o, acc : acc + values[o], 0, S)

(* connected components of a symmetric relation on 1 .. n *)
RECURSIVE Closure(_, _)
Closure(R, S) == LET T == S \cup UNION {{j \in DOMAIN R : R[i][j]} : i \in S}
                 IN IF T = S THEN S ELSE Closure(R, T)
Components(R) == {Closure(R, {i}) : i \in DOMAIN R}
Near(p, q, eps) == \A x \in DOMAIN p : (IF p[x] < q[x] THEN q[x] - p[x] ELSE p[x] - q[x]) < eps
=============================================================================
