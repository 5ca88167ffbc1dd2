------------------------------ MODULE ConvGen ------------------------------
(***************************************************************************)
(* Holders of an array (nested Rust arrays, Array, Tensor, View, ViewMut,   *)
(* strided views, vectors, macro literals) and the conversions between      *)
(* them.  A conversion by value consumes its source, one by reference       *)
(* leaves it; a fallible one gives the source back if the shapes differ.    *)
(* Every conversion from every reachable holder is emitted.                 *)
(***************************************************************************)
EXTENDS Content, Json

CONSTANTS Shapes,           \* shapes for which a nested array type exists
          Literals          \* shapes for which the harness has macro literals

VARIABLE h

\* ------------------------------------------------------------ shape types
AnyRank == << -9 >>
AllDyn(d) == [i \in 1..Len(d) |-> Dyn]
Alt(d, p) == [i \in 1..Len(d) |-> IF i % 2 = p THEN Dyn ELSE d[i]]
Static(d) == {AllDyn(d), d, Alt(d, 0), Alt(d, 1)}
Types(d) == Static(d) \cup {AnyRank}
Fits(d, st) == st = AnyRank \/ FitsType(d, st)

\* ---------------------------------------------------------------- holders
\* a nested array holds its data as a tree, the others as shape and elements
Holder(k, st, d, c) == [k |-> k, st |-> st, d |-> d, c |-> c]
NestOf(a) == [k |-> "nest", st |-> a.d, d |-> a.d, t |-> Nest(a)]
Counting(d) == [i \in 1..Size(d) |-> i]

\* the elements of nested data of shape d, by position: d[2]*...*d[n] per outer entry
RECURSIVE Leaves(_, _)
Leaves(t, d) == IF d = <<>> THEN << t.v >> ELSE Concat([i \in 1..d[1] |-> Leaves(t.v[i], Tail(d))])
Val(x) == IF x.k = "nest" THEN Arr(x.d, Leaves(x.t, x.d)) ELSE Arr(x.d, x.c)

To(k, st) == Holder(k, st, h.d, Val(h).c)
ToNest == NestOf(Val(h))
From == [k |-> h.k, st |-> h.st, d |-> h.d]
Show(op, via, ok, to, aim) ==
    PrintT("EDGE " \o ToJson([op |-> op, via |-> via, from |-> From, ok |-> ok, to |-> [k |-> to.k, st |-> to.st, d |-> to.d], aim |-> aim, c |-> Val(to).c]))
Step(op, via, res) == h' = res /\ Show(op, via, TRUE, res, <<>>)
\* a conversion that is refused: the source comes back
Refuse(op, via, aim) == h' = h /\ Show(op, via, FALSE, h, aim)

Views == {"view", "viewmut"}
Holds(k) == h.k = k

FromNest ==
    /\ Holds("nest") /\ h.d # <<>>
    /\ \/ \E v \in {"value", "ref", "asref", "asmut"} : Step("array", v, To("array", h.d))
       \/ \E v \in {"value", "ref"}, st \in Static(h.d) : Step("tensor", v, To("tensor", st))
       \/ \E k \in Views, st \in Static(h.d) : Step(k, "ref", To(k, st))
FromArray ==
    /\ Holds("array")
    /\ \/ h.d # <<>> /\ \E v \in {"value", "asref", "asmut", "slice", "slicemut"} : Step("nest", v, ToNest)
       \/ \E v \in {"ref", "to_array", "slice"} : Step("array", v, To("array", h.d))
       \/ \E v \in {"value", "ref", "to_tensor", "to_owned"} : Step("tensor", v, To("tensor", h.d))
       \/ \E k \in Views : Step(k, "ref", To(k, h.d))
       \/ Step("vec", "to_vec", To("vec", << Dyn >>))
FromTensor ==
    /\ Holds("tensor")
    /\ \/ (h.st = h.d) /\ \E v \in {"value", "ref", "to_array"} : Step("array", v, To("array", h.d))
       \/ \E v \in {"ref", "to_tensor", "to_owned", "slice"} : Step("tensor", v, To("tensor", h.st))
       \/ Step("tensor", "into_dyn", To("tensor", AnyRank))
       \/ \E k \in Views : Step(k, "ref", To(k, h.st))
       \/ \E v \in {"into_vec", "to_vec"} : Step("vec", v, To("vec", << Dyn >>))
       \/ Len(h.st) = 1 /\ h.st # AnyRank /\ \E v \in {"value", "asref", "asmut"} : Step("vec", v, To("vec", << Dyn >>))
FromView ==
    /\ h.k \in Views \cup {"strided"}
    /\ \/ (h.st = h.d) /\ \E v \in {"value", "to_array"} : Step("array", v, To("array", h.d))
       \/ \E v \in {"value", "to_tensor"} : Step("tensor", v, To("tensor", h.st))
       \/ Step("vec", "to_vec", To("vec", << Dyn >>))
       \/ h.k # "strided" /\ Len(h.st) = 1 /\ h.st # AnyRank /\ Step("vec", "slice", To("vec", << Dyn >>))
       \/ h.k \in Views /\ h.st = h.d /\ h.d # <<>> /\ \E v \in {"asref"} \cup (IF h.k = "viewmut" THEN {"asmut"} ELSE {}) : Step("nest", v, ToNest)
       \* another view of the same elements
       \/ \E v \in {"borrow"} \cup (IF h.k = "viewmut" THEN {"borrowmut"} ELSE {"clone", "clone_from"}) : Step("view", v, To(h.k, h.st))
FromVec ==
    /\ Holds("vec") /\ Len(h.d) = 1
    /\ \/ \E v \in {"value", "slice", "iter"} : Step("tensor", v, To("tensor", << Dyn >>))
       \/ \E k \in Views : Step(k, "slice", To(k, << Dyn >>))
\* fallible: into nested arrays, and into another shape type
Try ==
    /\ h.k \in {"tensor"} \cup Views /\ h.st # AnyRank
    /\ \E e \in Shapes : /\ Len(e) = Len(h.d) /\ e # <<>>
                         /\ IF e = h.d THEN Step("trynest", "value", ToNest) ELSE Refuse("trynest", "value", e)
Remap ==
    /\ h.k \in {"tensor"} \cup Views
    /\ h.st \in {AllDyn(h.d), AnyRank, h.d}
    /\ \E e \in {x \in Shapes : Len(x) = Len(h.d) \/ h.st # h.d} : \E st \in {AllDyn(e), e, AnyRank, Alt(e, 0)} :
          IF Fits(h.d, st) THEN Step("remap", "value", To(h.k, st)) ELSE Refuse("remap", "panic", st)
Macro ==
    /\ Holds("literal")
    /\ \/ Step("array", "macro", To("array", h.d))
       \/ Step("tensor", "macro", To("tensor", AllDyn(h.d)))
       \/ Step("view", "macro", To("view", AllDyn(h.d)))
\* a repeated element
Repeat ==
    /\ Holds("literal")
    /\ LET c == [i \in 1..Size(h.d) |-> 7]
       IN \/ Step("array", "repeat", Holder("array", h.d, h.d, c))
          \/ Step("tensor", "repeat", Holder("tensor", AllDyn(h.d), h.d, c))
          \/ Step("view", "repeat", Holder("view", AllDyn(h.d), h.d, c))

Init == \E d \in Shapes :
                             \/ d # <<>> /\ h = NestOf(Arr(d, Counting(d)))
                             \/ h = Holder("array", d, d, Counting(d))
                             \/ \E st \in Types(d) : h = Holder("strided", st, d, Counting(d))
                             \/ d \in Literals /\ h = Holder("literal", d, d, Counting(d))
Next == FromNest \/ FromArray \/ FromTensor \/ FromView \/ FromVec \/ Try \/ Remap \/ Macro \/ Repeat
Spec == Init /\ [][Next]_h

\* ------------------------------------------------------------- properties
TypeOK == h.k \in {"nest", "array", "tensor", "view", "viewmut", "strided", "vec", "literal"} /\ (h.k \notin {"vec"} => Fits(h.d, h.st))
\* no conversion changes an element or its position
Kept == \A i \in 1..Size(h.d) : Val(h).c[i] \in {i, 7}
Whole == Len(Val(h).c) = Size(h.d)
Ordered == Val(h).c = Counting(h.d) \/ \A i \in 1..Len(Val(h).c) : Val(h).c[i] = 7
Sizes == [][h'.d = h.d]_h
=============================================================================
