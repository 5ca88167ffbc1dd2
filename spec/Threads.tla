------------------------------ MODULE Threads ------------------------------
(***************************************************************************)
(* Arrays and threads.  What a thread may do with an element through a     *)
(* handle (an owner, an exclusive or a shared borrow of elements), and     *)
(* what happens if handles are moved to other threads ("send") or lent to  *)
(* them by reference ("sync").  An element type is described by whether    *)
(* its values may be moved to another thread (send) and used by several    *)
(* threads at once (sync).                                                 *)
(***************************************************************************)
EXTENDS Views

Handles == {"own", "excl", "shared"}
Elems == [send : BOOLEAN, sync : BOOLEAN]
Policies == [send : BOOLEAN, sync : BOOLEAN]
Thr == {1, 2}                   \* the elements were made in thread 1

\* the handle is at thread `at`, threads `lent` have a reference to it, threads
\* `twins` have copies of it (shared borrows can be copied)
Start == [at |-> 1, lent |-> {}, twins |-> {}]

Steps(h, p, s) ==
    (IF p.send /\ s.lent = {} THEN {[s EXCEPT !.at = t] : t \in Thr} ELSE {})
    \cup (IF p.sync THEN {[s EXCEPT !.lent = @ \cup {t}] : t \in Thr} ELSE {})
    \cup {[s EXCEPT !.lent = {}]}
    \cup (IF h = "shared" THEN {[s EXCEPT !.twins = @ \cup {s.at}]} ELSE {})

\* threads that may use the elements by reference, and the one that may use
\* them exclusively (change them, move them out, drop them)
Users(h, s) == {s.at} \cup s.lent \cup s.twins \cup (IF h = "shared" THEN {1} ELSE {})
Sole(h, s) == IF h # "shared" /\ s.lent = {} THEN {s.at} ELSE {}

Bad(h, e, s) == \/ ~e.sync /\ Cardinality(Users(h, s)) > 1      \* data race
                \/ ~e.send /\ \E t \in Sole(h, s) : t # 1       \* used away from home

\* all that can happen
RECURSIVE Reach(_, _, _)
Reach(h, p, S) == LET T == S \cup UNION {Steps(h, p, s) : s \in S} IN IF T = S THEN S ELSE Reach(h, p, T)
SafeFor(h, e, p) == \A s \in Reach(h, p, {Start}) : ~Bad(h, e, s)

\* what handles are to permit
Rule(h, e) == [send |-> IF h = "shared" THEN e.sync ELSE e.send, sync |-> e.sync]
Leq(p, q) == (p.send => q.send) /\ (p.sync => q.sync)
\* it is safe, and permitting anything more is not
ASSUME \A h \in Handles, e \in Elems, p \in Policies : SafeFor(h, e, p) <=> Leq(p, Rule(h, e))

\* a value made of several handles
RuleAll(hs, e) == [send |-> \A h \in hs : Rule(h, e).send, sync |-> \A h \in hs : Rule(h, e).sync]

----------------------------------------------------------------------------
(* Parts of an array that are held at the same time, given to threads       *)
Cut(v, k, m) == <<Split(v, k, m, 0).v, Split(v, k, m, 1).v>>
AxisParts(v, k) == [j \in 1..v.dims[k + 1] |-> AxisAt(v, k, j - 1).v]
LaneParts(v, k) ==
    LET r == RemoveAt1(v.dims, k + 1)
    IN [j \in 1..Size(r) |->
          [dims |-> <<v.dims[k + 1]>>, off |-> 0, str |-> <<v.str[k + 1]>>,
           cells |-> [i \in 1..v.dims[k + 1] |-> CellAt(v, InsertAt1(Unlin(r, j - 1), k + 1, i - 1))]]]
CellParts(v) == [j \in 1..Size(v.dims) |-> [dims |-> <<>>, off |-> 0, str |-> <<>>, cells |-> <<v.cells[j]>>]]
=============================================================================
