------------------------------- MODULE EqGen -------------------------------
(***************************************************************************)
(* Two arrays that start equal; steps change one of them.  Every state is  *)
(* emitted with the verdicts of comparison and search and the nested form. *)
(***************************************************************************)
EXTENDS Content, Json

CONSTANTS Shapes, Depth

VARIABLES a, b, n
vars == <<a, b, n>>

Counting(d) == [k \in 1..Size(d) |-> k]
Init == /\ a \in UNION {{Arr(d, Counting(d)), Arr(d, [k \in 1..Size(d) |-> 7])} : d \in Shapes}
        /\ b = a
        /\ n = 0

\* one element gets another value (99), or one that equals nothing
Poke(k, v) == b' = [b EXCEPT !.c[k] = v] /\ UNCHANGED a
\* the same in both
PokeBoth(k, v) == b' = [b EXCEPT !.c[k] = v] /\ a' = [a EXCEPT !.c[k] = v]
\* the same elements under another shape
Reshape(d) == /\ Size(d) = Size(b.d) /\ d # b.d
              /\ b' = Arr(d, b.c) /\ UNCHANGED a
\* the same shape with elements in another order
Flip == b' = [b EXCEPT !.c = Rev(b.c)] /\ UNCHANGED a
Next == /\ n < Depth
        /\ n' = n + 1
        /\ \/ \E k \in 1..Len(b.c), v \in {99, NaN} : Poke(k, v)
           \/ \E k \in 1..Len(b.c) : a.d = b.d /\ PokeBoth(k, NaN)
           \/ \E d \in Shapes : Reshape(d)
           \/ Len(b.c) > 1 /\ Flip
Spec == Init /\ [][Next]_vars

Probes == {0, 1, 7, 99, NaN} \cup {Len(b.c), (Len(b.c) + 1) \div 2}
Emit == PrintT("EDGE " \o ToJson([a |-> a, b |-> b, eq |-> Eq(a, b), show |-> Nest(b),
                                  has |-> {v \in Probes : Has(b, v)}, not |-> {v \in Probes : ~Has(b, v)}]))
EmitConstraint == Emit

\* ------------------------------------------------------------- properties
Symmetric == Eq(a, b) <=> Eq(b, a)
HashAgrees == Eq(a, b) => Key(a) = Key(b)
ShowAgrees == (Eq(a, b) => Nest(a) = Nest(b)) /\ (~Empty(a.d) /\ Nest(a) = Nest(b) /\ Eq(a, a) => Eq(a, b))
\* comparing and searching by outermost dimension is the same
ByOuter == (EqRec(a, b) <=> Eq(a, b)) /\ \A v \in Probes : HasRec(b, v) <=> Has(b, v)
=============================================================================
