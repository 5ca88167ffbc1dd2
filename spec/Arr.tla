------------------------------- MODULE Arr -------------------------------
(***************************************************************************)
(* Ideal (storage independent) vocabulary of multidimensional arrays:      *)
(* shapes, multi-indices, row-major order.  Indices are 0-based as in the  *)
(* API; TLA+ sequences holding them are 1-based.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
CeilDiv(a, b) == (a + b - 1) \div b

Size(d) == Prod(d)
Empty(d) == \E i \in DOMAIN d : d[i] = 0
DenseStr(d) == [i \in 1..Len(d) |-> Prod(SubSeq(d, i + 1, Len(d)))]
Dot(a, b) == FoldLeft(LAMBDA acc, i : acc + a[i] * b[i], 0, [i \in 1..Len(a) |-> i])

\* row-major position of a multi-index, and its inverse
Lin(d, ix) == Dot(ix, DenseStr(d))
Unlin(d, k) == LET s == DenseStr(d) IN [i \in 1..Len(d) |-> (k \div s[i]) % d[i]]
\* all multi-indices in row-major order
Indices(d) == [k \in 1..Size(d) |-> Unlin(d, k - 1)]

RemoveAt1(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
InsertAt1(s, k, x) == SubSeq(s, 1, k - 1) \o <<x>> \o SubSeq(s, k, Len(s))
ReplaceAt1(s, k, x) == [s EXCEPT ![k] = x]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Zeros(n) == [i \in 1..n |-> 0]
=============================================================================
