------------------------------ MODULE ExprGen ------------------------------
(***************************************************************************)
(* State machine of one iterator over one expression: each step is a call  *)
(* of next().  The invariants say that the machine of Expr.tla refines the *)
(* ideal semantics for every expression of the chosen family; every        *)
(* expression is emitted with its ideal outcome for replay.                *)
(***************************************************************************)
EXTENDS Expr, Json

CONSTANTS Focus,      \* families of expressions
          Shapes,     \* shapes of leaves in unary expressions and targets
          Pairs,      \* shapes of leaves in zipped expressions
          Small,      \* shapes of leaves in nested zips
          Strd        \* stride variants 0..3

VARIABLES x, it, k, last

vars == <<x, it, k, last>>

\* --- leaves
StrOf(d, w) ==
    CASE w = 0 -> DenseStr(d)
      [] w = 1 -> [i \in 1..Len(d) |-> Prod(SubSeq(d, 1, i - 1))]
      [] w = 2 -> LET g == DenseStr([i \in 1..Len(d) |-> d[i] + 1]) IN [i \in 1..Len(d) |-> -g[i]]
      [] w = 3 -> LET g == DenseStr([i \in 1..Len(d) |-> d[i] + 1])
                  IN [i \in 1..Len(d) |-> IF i % 2 = 1 THEN 2 * g[i] ELSE -2 * g[i]]
OffOf(d, s) == IF Empty(d) THEN 0 ELSE SumSeq([i \in 1..Len(d) |-> Max2(0, -(d[i] - 1) * s[i])])

Elem(t, l, id, d, w) ==
    LET s == StrOf(d, w) IN [t |-> t, l |-> l, id |-> id, d |-> d, s |-> s, f |-> OffOf(d, s)]
\* a slice with an axis
Sub(t, l, id, d, w, a) ==
    LET s == StrOf(d, w) IN [t |-> t, l |-> l, id |-> id, d |-> d, s |-> s, f |-> OffOf(d, s), a |-> a]
Plain(t, id, d) == [t |-> t, l |-> "D", id |-> id, d |-> d, s |-> DenseStr(d), f |-> 0]
DrainLeaf(id, d) == [Plain("drain", id, d) EXCEPT !.f = Prod(SubSeq(d, 2, Len(d)))]

Views(id, d) == {Elem("view", "D", id, d, 0), Elem("view", "R", id, d, 0)} \cup {Elem("view", "S", id, d, w) : w \in Strd}
ViewMuts(id, d) == {Elem("viewmut", "D", id, d, 0)} \cup {Elem("viewmut", "S", id, d, w) : w \in Strd}
Owned(id, d) == {Plain("into", id, d)} \cup (IF d # <<>> THEN {DrainLeaf(id, d)} ELSE {})
Computed(id, d) == {Plain("fn", id, d), Plain("elem", id, d)}
                   \cup (IF d = <<>> THEN {Plain("fill", id, d), Plain("fillwith", id, d)} ELSE {})
Leaves(id, d) == Views(id, d) \cup ViewMuts(id, d) \cup Owned(id, d) \cup Computed(id, d)

Un(t, e) == [t |-> t, x |-> e]
ZipE(a, b) == [t |-> "zip", x |-> a, y |-> b]

\* --- families (operators with a dummy argument, so that TLC evaluates only what is used)
LeafExprs(u) ==
    LET L == UNION {Leaves(1, d) : d \in Shapes}
        V == UNION {Views(1, d) : d \in Shapes}
    IN L \cup {Un(t, e) : t \in {"map", "enum"}, e \in L}
         \cup {Un(t, e) : t \in {"cloned", "copied"}, e \in V}
         \cup {Un("map", Un("enum", e)) : e \in L} \cup {Un("enum", Un("map", e)) : e \in L}

\* one layout variant per kind, for products of leaves
Few(id, d) ==
    {Elem("view", "R", id, d, 0), Elem("view", "S", id, d, 1), Elem("view", "S", id, d, 2), Elem("viewmut", "S", id, d, 3), Elem("viewmut", "D", id, d, 0)}
    \cup {Plain("into", id, d), Plain("fn", id, d)}
    \cup (IF d = <<>> THEN {Plain("fill", id, d), Plain("fillwith", id, d)} ELSE {Plain("elem", id, d), DrainLeaf(id, d)})
Tiny(id, d) == {Elem("view", "S", id, d, 1), Plain("fn", id, d), Plain("into", id, d)}
               \cup (IF d = <<>> THEN {Plain("fill", id, d)} ELSE {})

ZipPairs(u) == UNION {{ZipE(a, b) : a \in Few(1, p[1]), b \in Few(2, p[2])} : p \in Pairs \X Pairs}
\* bare, and mapped or enumerated as a whole
ZipExprs(u) == {z \in ZipPairs(0) : Valid(z)} \cup {z \in ZipPairs(0) : ~Valid(z) /\ z.x.t \in {"view", "into", "fn"} /\ z.y.t \in {"view", "viewmut", "into"}}
ZipMaps(u) == {Un(t, z) : t \in {"map", "enum"}, z \in {z \in ZipPairs(0) : Valid(z) /\ z.x.t \in {"view", "viewmut", "into", "fill"}}}
MapZips(u) == UNION {UNION {{ZipE(Un("map", a), b), ZipE(b, Un("map", a))} : a \in Tiny(1, p[1]), b \in Tiny(2, p[2])} : p \in Small \X Small}
           \cup UNION {{ZipE(Un("enum", a), b) : a \in Tiny(1, p[1]), b \in Tiny(2, p[2])} :
                          p \in {q \in Small \X Small : Len(q[1]) >= Len(q[2])}}
Triples(u) == UNION {UNION {{ZipE(ZipE(a, b), c), ZipE(a, ZipE(b, c))} : a \in Tiny(1, p[1]), b \in Tiny(2, p[2]), c \in Tiny(3, p[3])} :
                     p \in Small \X Small \X Small}
TripleExprs(u) == {z \in Triples(0) : Valid(z)} \cup {z \in Triples(0) : ~Valid(z) /\ z.x.t # "fn" /\ z.y.t # "fn"}

\* axes 0..rank (the last one does not exist)
SubsOf(kinds, d) ==
    {Sub(t, l, 1, d, 0, a) : t \in kinds, l \in {"D", "R"}, a \in 0..Len(d)}
    \cup {Sub(t, "S", 1, d, w, a) : t \in kinds, w \in Strd, a \in 0..Len(d)}
SubExprs(u) ==
    LET All == UNION {SubsOf(SubLeaf, d) : d \in Shapes}
        Shared == UNION {SubsOf({"axis", "lanes"}, d) : d \in Small}
        OkSh == {e \in Shared : Valid(e)}
        OkMut == {e \in UNION {SubsOf({"axismut", "lanesmut"}, d) : d \in Small} : Valid(e)}
        \* an operand of dynamic rank 0 makes every dimension an outer one
        One == Elem("view", "R", 2, <<>>, 0)
    IN All
       \cup {Un(t, e) : t \in {"map", "enum"}, e \in OkSh \cup OkMut}
       \cup {ZipE(e, One) : e \in OkSh \cup OkMut} \cup {ZipE(One, e) : e \in OkSh \cup OkMut}
       \cup UNION {{ZipE(e, Elem("view", "S", 2, Dims(e), 1)), ZipE(Elem("view", "R", 2, Dims(e), 0), e),
                    ZipE(e, Elem("view", "S", 2, <<2>> \o Dims(e), 1)), ZipE(Plain("fn", 2, <<2>> \o Dims(e)), e)}
                   \cup (IF Dims(e) # <<>> THEN {ZipE(e, Elem("view", "S", 2, SubSeq(Dims(e), 2, Len(Dims(e))), 1))} ELSE {})
                   : e \in {e \in OkSh : Size(Dims(e)) <= 12}}

Family(u) == (IF "leaf" \in Focus THEN LeafExprs(0) ELSE {})
          \cup (IF "zip" \in Focus THEN ZipExprs(0) ELSE {})
          \cup (IF "zipmap" \in Focus THEN ZipMaps(0) ELSE {})
          \cup (IF "nest" \in Focus THEN MapZips(0) \cup TripleExprs(0) ELSE {})
          \cup (IF "sub" \in Focus THEN SubExprs(0) ELSE {})

\* targets and sources of assignments, emitted as zips
Targets(u) == UNION {{Elem("viewmut", "D", 1, d, 0)} \cup {Elem("viewmut", "S", 1, d, w) : w \in Strd} : d \in Pairs}
Sources(u) == UNION {Few(2, d) : d \in Pairs}
           \cup {Un("map", Elem("view", "S", 2, d, 1)) : d \in Pairs}
Assigns(u) == IF "assign" \in Focus THEN {ZipE(t, s) : t \in Targets(0), s \in {s \in Sources(0) : s.t # "viewmut"}} ELSE {}

Emit(e) ==
    PrintT("EDGE " \o ToJson(
        IF Valid(e) THEN [x |-> e, k |-> "ok", d |-> Dims(e), i |-> Items(e)]
        ELSE [x |-> e, k |-> "panic"]))

Init == /\ x \in Family(0) \cup Assigns(0)
        /\ it = IF Valid(x) THEN IterNew(x) ELSE <<>>
        /\ k = 0
        /\ last = << >>

Call == /\ Valid(x)
        /\ k < Size(Dims(x)) + 2
        /\ LET r == IterNext(it) IN it' = r[2] /\ last' = r[1]
        /\ k' = k + 1
        /\ UNCHANGED x

Next == Call
Spec == Init /\ [][Next]_vars

EmitConstraint == k > 0 \/ Emit(x)

\* ------------------------------------------------------------- properties
\* the machine yields the ideal items, then nothing
Yields == k > 0 => last = (IF k <= Size(Dims(x)) THEN << Items(x)[k] >> ELSE <<>>)
\* and knows exactly how many are left
ExactHint == Valid(x) => Hint(it) = Max2(0, Size(Dims(x)) - k)
=============================================================================
