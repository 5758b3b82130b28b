------------------------------- MODULE Util -------------------------------
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
Ok(s, o) == [st |-> s, err |-> {}, out |-> o]
Fail(s, e) == [st |-> s, err |-> e, out |-> <<>>]
\* G(cond, name): the guard "name" refuses when cond holds
G(cond, name) == IF cond THEN {name} ELSE {}
Has(f, x) == x \in DOMAIN f
Put(f, x, v) == (x :> v) @@ f
Get(f, x, default) == IF x \in DOMAIN f THEN f[x] ELSE default
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
SeqsFromTo(S, m, n) == UNION {[1..k -> S] : k \in m..n}
CeilDiv(a, b) == (a + b - 1) \div b
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
SumF(f) == LET RECURSIVE Sum(_)
               Sum(D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN f[x] + Sum(D \ {x})
           IN Sum(DOMAIN f)
MapSeq(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]
NoDup(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
IsSubSeq(a, b) == \E f \in [1..Len(a) -> 1..Len(b)] :
                     (\A i \in 1..Len(a) : a[i] = b[f[i]]) /\ (\A i, j \in 1..Len(a) : i < j => f[i] < f[j])
\* SetToSeq in a fixed order (TLC's normalized set order)
RECURSIVE OrderedSeq(_)
OrderedSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o OrderedSeq(S \ {x})
===========================================================================
