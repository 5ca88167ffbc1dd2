----------------------------- MODULE ThreadsGen -----------------------------
(***************************************************************************)
(* For every kind of array value and element type, whether it may cross    *)
(* threads; arrays divided among threads that write their parts in every   *)
(* order; iterators that are passed on between threads.                    *)
(***************************************************************************)
EXTENDS Threads, Json

CONSTANTS Shapes,   \* divided among threads
          Small     \* those where every interleaving is explored

\* handles that values of the library hold on elements
Kinds == [own |-> {"own"}, excl |-> {"excl"}, shared |-> {"shared"}, mixed |-> {"shared", "excl"}, pair |-> {"own", "shared"}]

VARIABLES d,        \* shape of the array
          parts,    \* its parts, by position
          mem,      \* contents: cell -> number of the part that wrote it, 0 at first
          todo,     \* part -> how many of its cells are still to be written
          said
vars == <<d, parts, mem, todo, said>>

Whole == Base(d)
Say(rec) == PrintT("EDGE " \o ToJson(rec))
Auto(k, e) == [op |-> "auto", k |-> k, es |-> e.send, ey |-> e.sync] @@ RuleAll(Kinds[k], e)

Divide(how, a, m) ==
    CASE how = "split" -> Cut(Whole, a, m)
      [] how = "split3" -> LET c == Cut(Whole, a, m) IN <<c[1]>> \o Cut(c[2], a, c[2].dims[a + 1] \div 2)
      [] how = "axis" -> AxisParts(Whole, a)
      [] how = "lanes" -> LaneParts(Whole, a)
      [] how = "cells" -> CellParts(Whole)
Ways == {<<"cells", 0, 0>>}
    \cup {<<w, a, m>> : w \in {"split", "split3"}, a \in 0..Len(d) - 1, m \in {0, 1, 2}}
    \cup {<<w, a, 0>> : w \in {"axis", "lanes"}, a \in 0..Len(d) - 1}
Cells(x) == [i \in DOMAIN x |-> x[i].cells]
\* what the array holds when all are done
Result(ps) == [c \in 1..Size(d) |-> IF \E i \in DOMAIN ps : \E j \in DOMAIN ps[i].cells : (ps[i].cells)[j] = c - 1
                                    THEN CHOOSE i \in DOMAIN ps : \E j \in DOMAIN ps[i].cells : (ps[i].cells)[j] = c - 1 ELSE 0]

Begin == /\ ~said /\ parts = <<>> /\ d # <<-1>>
         /\ \E w \in Ways :
              /\ (w[1] \in {"split", "split3"} => w[3] <= d[w[2] + 1])
              /\ LET ps == Divide(w[1], w[2], w[3]) IN
                 /\ Say([op |-> "divide", d |-> d, how |-> w[1], a |-> w[2], m |-> w[3], cells |-> Cells(ps), res |-> Result(ps)])
                 /\ IF d \in Small THEN parts' = ps /\ todo' = [i \in DOMAIN ps |-> Len(ps[i].cells)]
                                   ELSE UNCHANGED <<parts, todo>>
         /\ said' = TRUE /\ UNCHANGED <<d, mem>>
\* a part's next cell is written, in any order of the parts
Write == \E i \in DOMAIN todo : todo[i] > 0 /\
            LET c == (parts[i].cells)[Len(parts[i].cells) - todo[i] + 1]
            IN mem' = [mem EXCEPT ![c + 1] = i] /\ todo' = [todo EXCEPT ![i] = @ - 1] /\ UNCHANGED <<d, parts, said>>
\* an iterator is passed on: n elements in one thread, the rest in another
Relay == /\ ~said /\ d # <<-1>>
         /\ \E n \in 0..Size(d) : Say([op |-> "relay", d |-> d, n |-> n, first |-> [i \in 1..n |-> i - 1], rest |-> [i \in 1..Size(d) - n |-> n + i - 1]])
         /\ said' = TRUE /\ UNCHANGED <<d, parts, mem, todo>>
Types == /\ ~said /\ d = <<-1>> /\ \A k \in DOMAIN Kinds : \A e \in Elems : Say(Auto(k, e))
         /\ said' = TRUE /\ UNCHANGED <<d, parts, mem, todo>>

Init == d \in Shapes \cup {<<-1>>} /\ parts = <<>> /\ todo = <<>> /\ said = FALSE /\ mem = [c \in 1..(IF d = <<-1>> THEN 0 ELSE Size(d)) |-> 0]
Next == Begin \/ Write \/ Relay \/ Types
Spec == Init /\ [][Next]_vars

\* parts do not overlap, so a cell once written is not written again by another part
Apart == \A i, j \in DOMAIN parts : i # j =>
            {(parts[i].cells)[x] : x \in DOMAIN parts[i].cells} \cap {(parts[j].cells)[x] : x \in DOMAIN parts[j].cells} = {}
\* whatever the order, the outcome is the same
Outcome == parts # <<>> /\ (\A i \in DOMAIN todo : todo[i] = 0) => mem = Result(parts)
Covers == parts # <<>> => UNION {{(parts[i].cells)[x] : x \in DOMAIN parts[i].cells} : i \in DOMAIN parts} = 0..Size(d) - 1
=============================================================================
