------------------------------ MODULE SerGen ------------------------------
(***************************************************************************)
(* Nested data: the serialized form of an array, then damaged step by step *)
(* (elements removed, added, replaced by something of another kind).       *)
(* Every state is emitted with what reading it gives for each shape type.  *)
(***************************************************************************)
EXTENDS Content, Json

CONSTANTS Shapes, Types, Depth, Deep    \* Deep: shapes whose mutations are explored

VARIABLES t, from, n
vars == <<t, from, n>>

Init == \E d \in Shapes : /\ from = d
                          /\ t = Nest(Arr(d, [k \in 1..Size(d) |-> k]))
                          /\ n = 0

\* paths to all nodes
RECURSIVE Paths(_)
Paths(x) == {<<>>} \cup (IF x.k = "l" THEN UNION {{<<i>> \o p : p \in Paths(x.v[i])} : i \in 1..Len(x.v)} ELSE {})
RECURSIVE At(_, _)
At(x, p) == IF p = <<>> THEN x ELSE At(x.v[p[1]], Tail(p))
RECURSIVE Put(_, _, _)
Put(x, p, y) == IF p = <<>> THEN y ELSE [x EXCEPT !.v[p[1]] = Put(x.v[p[1]], Tail(p), y)]

Edits(x) ==
    IF x.k = "l"
    THEN {Num(50), Bad, Lst(<<x>>), Lst(Append(x.v, IF x.v = <<>> THEN Num(51) ELSE x.v[1])), Lst(<<>>)}
         \cup (IF x.v # <<>> THEN {Lst(Tail(x.v)), Lst(Append(x.v, Num(52))), Lst(Append(x.v, Lst(<<>>))), x.v[1]} ELSE {Lst(<<Lst(<<>>)>>)})
    ELSE {Lst(<<x>>), Lst(<<>>), Bad}
Mutate == \E p \in Paths(t), k \in 1..9 :
             LET e == SetToSeq(Edits(At(t, p)))
             IN k <= Len(e) /\ t' = Put(t, p, e[k])
Next == /\ n < Depth /\ from \in Deep
        /\ Mutate
        /\ n' = n + 1 /\ UNCHANGED from
Spec == Init /\ [][Next]_vars

Out(st) == LET r == Parse(t, st) IN IF r = <<>> THEN [st |-> st, k |-> "err"] ELSE [st |-> st, k |-> "ok", d |-> r[1].d, c |-> r[1].c]
Emit == PrintT("EDGE " \o ToJson([t |-> t, n |-> n, from |-> from, out |-> {Out(st) : st \in Types}]))
EmitConstraint == Emit
StateView == <<t, n = 0, IF n = 0 THEN from ELSE <<>> >>

\* ------------------------------------------------------------- properties
\* an intact form reads back as the array it came from
RoundTrip == n = 0 => \A st \in Types : FitsType(from, st) =>
                 Parse(t, st) = << Arr(Shown(from, st), [k \in 1..Size(from) |-> k]) >>
\* whatever is accepted has exactly the content of the data
Faithful == \A st \in Types : LET r == Parse(t, st) IN r # <<>> => Nest(r[1]) = t /\ FitsType(r[1].d, st)
=============================================================================
