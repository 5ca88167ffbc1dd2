------------------------------ MODULE Content ------------------------------
(***************************************************************************)
(* Arrays as values: a shape and the elements in row-major order, whatever *)
(* holds them.  Comparison, search, the nested form shown by debug output  *)
(* and used for serialization, reading the nested form back, and           *)
(* conversions between holders.                                            *)
(***************************************************************************)
EXTENDS Arr

Arr(d, c) == [d |-> d, c |-> c]
NaN == -1                               \* an element that is not equal to itself
Same(x, y) == x = y /\ x # NaN

\* ------------------------------------------------------------- comparison
Eq(a, b) == a.d = b.d /\ \A k \in 1..Len(a.c) : Same(a.c[k], b.c[k])
Has(a, v) == \E k \in 1..Len(a.c) : Same(a.c[k], v)
Key(a) == << a.d, a.c >>                \* what a hash may depend on

\* the i-th sub-array (0-based) along the first dimension
Outer(a, i) == LET t == Tail(a.d)
                   n == Size(t)
               IN Arr(t, SubSeq(a.c, i * n + 1, (i + 1) * n))
\* the library's way for strided layouts (ops.rs, slice.rs): by outermost dimension
RECURSIVE EqRec(_, _)
EqRec(a, b) ==
    IF a.d # b.d THEN FALSE
    ELSE IF Len(a.d) < 2 THEN \A k \in 1..Len(a.c) : Same(a.c[k], b.c[k])
    ELSE \A i \in 0..a.d[1] - 1 : EqRec(Outer(a, i), Outer(b, i))
RECURSIVE HasRec(_, _)
HasRec(a, v) ==
    IF Len(a.d) < 2 THEN \E k \in 1..Len(a.c) : Same(a.c[k], v)
    ELSE \E i \in 0..a.d[1] - 1 : HasRec(Outer(a, i), v)

\* ------------------------------------------------------------ nested form
Num(v) == [k |-> "n", v |-> v]
Lst(v) == [k |-> "l", v |-> v]
Bad == [k |-> "s", v |-> 0]             \* something that is neither a number nor a list
RECURSIVE Nest(_)
Nest(a) == IF a.d = <<>> THEN Num(a.c[1]) ELSE Lst([i \in 1..a.d[1] |-> Nest(Outer(a, i - 1))])

\* Shape types: a sequence of sizes, Dyn where the size is free.
Dyn == -1
FitsType(d, st) == Len(d) = Len(st) /\ \A i \in 1..Len(d) : st[i] = Dyn \/ st[i] = d[i]
Default(st) == [i \in 1..Len(st) |-> IF st[i] = Dyn THEN 0 ELSE st[i]]

\* reading a nested form as an array of shape type st: <<>> is an error
RECURSIVE Parse(_, _)
Parse(t, st) ==
    IF st = <<>> THEN (IF t.k = "n" THEN << Arr(<<>>, << t.v >>) >> ELSE <<>>)
    ELSE IF t.k # "l" THEN <<>>
    ELSE IF st[1] # Dyn /\ st[1] # Len(t.v) THEN <<>>
    ELSE LET sub == [i \in 1..Len(t.v) |-> Parse(t.v[i], Tail(st))]
         IN IF \E i \in 1..Len(sub) : sub[i] = <<>> THEN <<>>
            ELSE IF t.v = <<>> THEN << Arr(<<0>> \o Default(Tail(st)), <<>>) >>
            ELSE IF \E i \in 1..Len(sub) : sub[i][1].d # sub[1][1].d THEN <<>>
            ELSE << Arr(<< Len(t.v) >> \o sub[1][1].d, Concat([i \in 1..Len(sub) |-> sub[i][1].c])) >>

\* what is left of a shape after a round trip: sizes after a zero are not in the data
Shown(d, st) ==
    [i \in 1..Len(d) |-> IF \E j \in 1..i - 1 : d[j] = 0 THEN Default(st)[i] ELSE d[i]]
=============================================================================
