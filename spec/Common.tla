------------------------------- MODULE Common -------------------------------
(* Operators shared by the specifications of snips-nlu-rs. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

None == "~none"                       \* no intent

RangeS(s) == { s[i] : i \in 1..Len(s) }
Has(r, k) == k \in DOMAIN r
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Abs(a - b) <= tol
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Sum(s) == FoldSeq(LAMBDA x, acc : x + acc, 0, s)
Count(s, P(_)) == Cardinality({ i \in 1..Len(s) : P(s[i]) })
Distinct(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
IsPerm(s, t) == /\ Len(s) = Len(t)
                /\ \A x \in RangeS(s) \cup RangeS(t) :
                      Cardinality({i \in 1..Len(s) : s[i] = x}) = Cardinality({i \in 1..Len(t) : t[i] = x})
Sub(s, a, b) == SubSeq(s, a + 1, b)   \* the items of s at the positions a <= i < b (from 0)
Overlap(a, b) == a.s < b.e /\ b.s < a.e

(* Reports of the trace specifications: a clause of a property that an event breaks. *)
Clause(cond, prop, what) == IF cond THEN {} ELSE { <<prop, what>> }
Report(l, bad) == \A b \in bad : PrintT(<<"REJECT", l, b[1], b[2]>>)
=============================================================================
