------------------------------ MODULE OwnGen ------------------------------
(***************************************************************************)
(* State machine over two owning arrays a and b: every step is one         *)
(* operation of Own.tla.  Conservation and Shape are checked over all      *)
(* histories up to Depth; every operation on every pair of shapes in       *)
(* ShapesA x ShapesB is emitted for replay.                                *)
(***************************************************************************)
EXTENDS Own, Json

CONSTANTS ShapesA, ShapesB, NewShapes, Ops, Depth

VARIABLES a, b, born, dropped, out, leaked, n

vars == <<a, b, born, dropped, out, leaked, n>>

Fill(d, base) == Arr1(d, [k \in 1..Size(d) |-> <<base + k, base + k>>])
O(o, nn, k, m) == [o |-> o, n |-> nn, k |-> k, m |-> m]

\* interesting numbers of items to take from len items
Takes(len) == {k \in {0, 1, 2, len - 1, len} : 0 <= k /\ k <= len}
Ends(x) == {-1, 0, 1, 2, x - 1, x, x + 1} \cap (-1..(x + 1))
DrainRanges(x) == LET n0 == IF x.d = <<>> THEN 0 ELSE x.d[1] IN {<<s, t>> : s \in Ends(n0), t \in Ends(n0)}
Drains(x) ==
    LET n0 == IF x.d = <<>> THEN 0 ELSE x.d[1]
        rs == {<<s, t>> : s \in Ends(n0), t \in Ends(n0)}
        row == IF x.d = <<>> THEN 1 ELSE Row(x.d)
        ln(r) == LET q == RangeOf([n |-> r, m |-> ""], n0) IN IF q.s <= q.t /\ q.t <= n0 THEN (q.t - q.s) * row ELSE 0
    IN UNION {{O("drain", r, k, m) : k \in Takes(ln(r)), m \in {"drop", "forget"}} : r \in rs}
       \cup {O("drain", r, 0, "incl") : r \in {r \in rs : r[2] >= 0}}

\* whether draining r into y is accepted is fixed by the documentation
DrainClear(x, y, r) ==
    \/ x.d = <<>>
    \/ LET q == RangeOf([n |-> r, m |-> ""], x.d[1])
       IN ~RangeOk(q, x.d[1]) \/ ExpandClear(y, CutDims(x, q))

\* operations on a alone, and on both
OpsOf(x, y) ==
    LET one == (IF "size" \in Ops
                THEN {O(o, d, 0, "") : o \in {"resize", "resize_with"}, d \in NewShapes}
                     \cup {O("truncate", <<>>, k, "") : k \in (0..4) \cup {7, 16}}
                     \cup {O("clear", <<>>, 0, ""), O("with_capacity", <<>>, 0, ""), O("with_capacity", <<>>, 5, ""), O("default", <<>>, 0, "")}
                     \cup Drains(x) \cup {O("drain_eval", r, 0, m) : r \in DrainRanges(x), m \in {"eval", "map"}}
                     \cup (IF Len(x.d) = 1 THEN {O("extend", <<>>, k, "") : k \in {0, 1, 3, 40}} ELSE {})
                ELSE {})
               \cup (IF "move" \in Ops
                     THEN UNION {{O("into_iter", <<>>, k, m) : k \in Takes(Len(x.e))} : m \in {"drop", "forget"}}
                          \cup {O("into_iter", <<>>, 0, "fold"), O("into_vec", <<>>, 0, ""), O("into_flat", <<>>, 0, ""),
                                O("into_dyn", <<>>, 0, ""), O("raw_parts", <<>>, 0, ""), O("into_expr_eval", <<>>, 0, ""),
                                O("into_scalar", <<>>, 0, ""), O("via_array", <<>>, 0, ""), O("drop", <<>>, 0, ""),
                                O("into_buffer", <<>>, 0, "")}
                          \cup {O("into_shape", d, 0, "") : d \in NewShapes}
                          \cup {O("into_mapping", d, 0, "") : d \in {x.d} \cup {<<>>, <<2>>, <<2, 2>>, <<2, 2, 2>>}}
                     ELSE {})
               \cup (IF "user" \in Ops
                     THEN {O(o, <<>>, 0, "") : o \in {"clone", "expr_clone", "to_tensor", "to_owned", "to_vec", "map", "apply", "array_map", "fill", "fill_with", "contains"}}
                          \cup {O(o, x.d, 0, "") : o \in {"from_fn", "from_elem", "array_from_fn", "array_from_elem", "from_expr"}}
                          \cup (IF Len(x.d) = 1 THEN {O("collect", x.d, 0, "")} ELSE {})
                     ELSE {})
               \cup (IF "cap" \in Ops
                     THEN {O(o, <<>>, k, "") : o \in {"reserve", "reserve_exact", "try_reserve", "shrink_to"}, k \in {0, 1, 5, 19, 40, 200}}
                          \cup {O("shrink_to_fit", <<>>, 0, ""), O("spare", <<>>, 0, ""), O("spare", <<>>, 1, ""), O("raw_parts", <<>>, 0, ""),
                                O("try_reserve", <<>>, 0, "huge"), O("reserve_huge", <<>>, 0, "")}
                          \cup {O("overflow", <<>>, k, m) : k \in 0..7, m \in {"resize", "from_fn", "from_elem", "into_shape", "fill"}}
                     ELSE {})
        two == (IF "pair" \in Ops
                THEN (IF ExpandClear(x, y.d) THEN {O("expand", <<>>, 0, m) : m \in {"ref", "val", "map"}} \cup {O("append", <<>>, 0, "")} ELSE {})
                     \cup {O("clone_from", <<>>, 0, ""), O("clone_into", <<>>, 0, ""), O("expr_clone_from", <<>>, 0, ""), O("replace", <<>>, 0, ""), O("swap", <<>>, 0, ""), O("eq", <<>>, 0, "")}
                     \cup {O(o, <<>>, 0, m) : o \in {"zip_with", "assign"}, m \in {"ref", "val"}}
                     \cup UNION {{O("zip_iter", <<>>, k, m) : k \in IF x.d = y.d THEN Takes(Len(x.e)) ELSE {0}} : m \in {"drop", "forget"}}
                     \cup {O("zip_iter", <<>>, 0, "fold")}
                     \cup {O("drain_into", r, 0, "assign") : r \in DrainRanges(x)}
                     \cup {O("drain_into", r, 0, "expand") : r \in {r \in DrainRanges(x) : DrainClear(x, y, r)}}
                ELSE {})
    IN IF y.p = 1 THEN two ELSE one

\* kinds of shape type for which an operation is emitted
Kinds(op, x, y) ==
    CASE op.o \in {"clear", "with_capacity", "default"} ->
           (IF x.d # <<>> THEN {"any"} ELSE {"dyn"}) \cup (IF Size(x.d) > 0 THEN {"full"} ELSE {})
      [] op.o \in {"expand", "append", "truncate", "drain", "drain_eval", "drain_into"} ->
           (IF y.p = 0 \/ Len(x.d) = Len(y.d) THEN {"any"} ELSE {"dyn"})
           \cup (IF x.d # <<>> /\ (y.p = 0 \/ Len(x.d) = Len(y.d)) THEN {"head"} ELSE {})
      [] op.o \in {"clone_from", "clone_into", "expr_clone_from", "replace", "swap"} -> IF Len(x.d) = Len(y.d) THEN {"any"} ELSE {"dyn"}
      [] OTHER -> {"any"}
\* a's type has constant sizes that the outcome would not have
Clash(op, x, y) ==
    IF \/ op.o \in {"resize", "resize_with"} /\ Len(op.n) = Len(x.d) /\ op.n # x.d
       \/ (op.o = "expand" /\ Size(x.d) = 0 /\ Size(y.d) > 0 /\ Len(x.d) = Len(y.d) /\ x.d # <<>>
             /\ SubSeq(x.d, 2, Len(x.d)) # SubSeq(y.d, 2, Len(y.d))) = TRUE
    THEN {"clash"} ELSE {}

Emit(op, x, y) ==
    \A kind \in Kinds(op, x, y) \cup Clash(op, x, y) :
        LET q == IF kind = "clash" THEN Refuse(x, IF op.o = "expand" /\ op.m = "val" THEN Absent ELSE y)
                 ELSE Expect(op, x, y, kind = "dyn", kind \in {"head", "full"})
        IN PrintT("EDGE " \o ToJson([op |-> op, t |-> kind, x |-> x.d, y |-> y.d, yp |-> y.p, q |-> q, s |-> Exposed(op),
                                     lo |-> CapLo(op, q.a, Len(x.e) + 7, q.r), hi |-> CapHi(op, q.a, Len(x.e) + 7, q.r)]))

\* ---- the machine
Init == /\ n = 0 /\ born = 2000 /\ dropped = {} /\ out = {} /\ leaked = {}
        /\ a \in {Fill(d, 0) : d \in ShapesA}
        /\ b \in {Absent} \cup {Fill(d, 1000) : d \in ShapesB}

\* give identities to new elements
RECURSIVE Name(_, _)
Name(e, nxt) == IF e = <<>> THEN <<>>
                ELSE IF Head(e)[1] = 0 THEN << <<nxt, Head(e)[2]>> >> \o Name(Tail(e), nxt + 1)
                ELSE << Head(e) >> \o Name(Tail(e), nxt)
News(e) == Cardinality({k \in 1..Len(e) : e[k][1] = 0})
Actual(x) == IF x.d = AnyShape THEN [x EXCEPT !.d = <<0>>] ELSE x

All(x) == IF x.p = 0 THEN {} ELSE Ids(x.e)

Do(op) ==
    LET q == Expect(op, a, b, TRUE, FALSE)
        a2 == [q.a EXCEPT !.e = Name(q.a.e, born + 1)]
        b2 == [q.b EXCEPT !.e = Name(q.b.e, born + 1 + News(q.a.e))]
        new == born + News(q.a.e) + News(q.b.e)
        pool == All(a) \cup All(b) \cup ((born + 1)..new)
        kept == All(a2) \cup All(b2) \cup Ids(q.out)
    IN /\ "a" \notin q.f \* leaking a drain: outcome not fixed
       /\ a' = Actual(a2) /\ b' = Actual(b2) /\ born' = new
       /\ out' = out \cup Ids(q.out)
       /\ leaked' = leaked \cup (IF q.leak THEN pool \ kept ELSE {})
       /\ dropped' = dropped \cup (IF q.leak THEN {} ELSE pool \ kept)
       /\ n' = n + 1

Next == /\ n < Depth
        /\ a.p = 1
        /\ \E op \in OpsOf(a, b) : Do(op)
Spec == Init /\ [][Next]_vars

EmitConstraint == n > 0 \/ \A op \in OpsOf(a, b) : Emit(op, a, b)

\* ------------------------------------------------------------- properties
Created == (IF n = 0 THEN {} ELSE {}) \cup All(a) \cup All(b) \cup out \cup dropped \cup leaked
\* every element is in exactly one place
Conservation ==
    /\ Distinct(a.e) /\ Distinct(b.e)
    /\ All(a) \cap All(b) = {}
    /\ (All(a) \cup All(b)) \cap (out \cup dropped \cup leaked) = {}
    /\ out \cap dropped = {} /\ leaked \cap (out \cup dropped) = {}
    /\ \A i \in 2001..born : i \in Created
Shape == Valid(a) /\ Valid(b)
=============================================================================
