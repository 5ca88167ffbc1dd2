------------------------------ MODULE OpsGen ------------------------------
(***************************************************************************)
(* Enumerates operator applications (family "bin", "tree", "un") and       *)
(* histories of compound assignments to one target (family "assign").      *)
(***************************************************************************)
EXTENDS Ops, Json

CONSTANTS Focus, Shapes, Depth

VARIABLES x, c, h

vars == <<x, c, h>>

StrOf(d, w) ==
    CASE w = 0 -> DenseStr(d)
      [] w = 1 -> [i \in 1..Len(d) |-> Prod(SubSeq(d, 1, i - 1))]
      [] w = 2 -> LET g == DenseStr([i \in 1..Len(d) |-> d[i] + 1]) IN [i \in 1..Len(d) |-> -g[i]]
      [] w = 3 -> LET g == DenseStr([i \in 1..Len(d) |-> d[i] + 1])
                  IN [i \in 1..Len(d) |-> IF i % 2 = 1 THEN 2 * g[i] ELSE -2 * g[i]]
OffOf(d, s) == IF Empty(d) THEN 0 ELSE SumSeq([i \in 1..Len(d) |-> Max2(0, -(d[i] - 1) * s[i])])
Leaf(t, o, id, d, w) ==
    LET s == StrOf(d, w) IN [t |-> t, o |-> o, l |-> IF w = 0 THEN "D" ELSE "S", id |-> id, d |-> d, s |-> s, f |-> OffOf(d, s)]

\* shapes with a constant-shape array type in the harness
ArrShapes == { <<>>, <<3>>, <<2, 3>>, <<0>>, <<2, 0>>, <<2, 2, 3>>, <<2>>, <<3, 2>>, <<1, 3>>, <<2, 1>> }
OnArr(t, id, d) == IF d \in ArrShapes THEN {Leaf(t, "array", id, d, 0)} ELSE {}

\* operands both sides accept
Common(id, d) ==
    {Leaf("view", "tensor", id, d, 0), Leaf("view", "slice", id, d, 2), Leaf("view", "slice", id, d, 0), Leaf("view", "view", id, d, 1),
     Leaf("view", "viewmut", id, d, 3), Leaf("view", "byval", id, d, 3)}
    \cup OnArr("view", id, d)
    \cup {Leaf("into", "tensor", id, d, 0), Leaf("into", "expr", id, d, 0)}
    \cup OnArr("into", id, d)
    \cup {Leaf("elem", "expr", id, d, 0), Leaf("fn", "expr", id, d, 0)}
    \cup {[t |-> "map", o |-> "expr", x |-> Leaf("view", "byval", id, d, 1)]}
    \cup (IF d = <<>> THEN {Leaf("fill", "expr", id, d, 0), Leaf("fillwith", "expr", id, d, 0)} ELSE {})
\* only as right operands
RightOnly(id, d) ==
    {Leaf("viewmut", "tensor", id, d, 0), Leaf("viewmut", "slice", id, d, 3), Leaf("viewmut", "view", id, d, 2), Leaf("viewmut", "byval", id, d, 1)}
    \cup OnArr("viewmut", id, d)
    \cup {[t |-> "cloned", o |-> "expr", x |-> Leaf("view", "byval", id, d, 2)]}
    \cup (IF d # <<>> THEN {[Leaf("drain", "expr", id, d, 0) EXCEPT !.f = Prod(SubSeq(d, 2, Len(d)))]} ELSE {})
Right(id, d) == Common(id, d) \cup RightOnly(id, d)

Bin(op, a, b) == [t |-> "bin", op |-> op, x |-> a, y |-> b]
Un(op, a) == [t |-> "un", op |-> op, x |-> a]
Range10 == {BinOps[i] : i \in 1..10}

\* trees over few kinds of operands
Tiny(id, d) == {Leaf("view", "slice", id, d, 1), Leaf("into", "tensor", id, d, 0), Leaf("into", "expr", id, d, 0)}
               \cup (IF d = <<>> THEN {Leaf("fillwith", "expr", id, d, 0)} ELSE {Leaf("fn", "expr", id, d, 0)})
TreeShapes == {d \in Shapes : Len(d) <= 2 /\ ~Empty(d)}
\* targets of compound assignment
Targets(u) == UNION {{Leaf("viewmut", "tensor", 1, d, 0), Leaf("viewmut", "slice", 1, d, 1), Leaf("viewmut", "slice", 1, d, 0), Leaf("viewmut", "view", 1, d, 3),
                      Leaf("viewmut", "view", 1, d, 2)}
                     \cup OnArr("viewmut", 1, d) : d \in Shapes}
SrcTrees(id, d) == {Bin("sub", Leaf("view", "slice", id, d, 1), Leaf("fill", "expr", id + 1, <<>>, 0)),
                    Bin("sub", Leaf("into", "tensor", id, d, 0), Leaf("fill", "expr", id + 1, <<>>, 0))}
Sources(u) == UNION {Right(2, d) : d \in Shapes} \cup UNION {SrcTrees(2, d) : d \in Shapes}

ASSIGN == "assign" \in Focus
\* what to build: operand shapes first, so that the workers share the enumeration
Pick(f, p) == [t |-> "pick", f |-> f, p |-> p]
Picks == (IF "bin" \in Focus THEN {Pick("bin", p) : p \in Shapes \X Shapes} ELSE {})
      \cup (IF "un" \in Focus THEN {Pick("un", <<d>>) : d \in Shapes} ELSE {})
      \cup (IF "tree" \in Focus THEN {Pick("tree3", p) : p \in TreeShapes \X TreeShapes \X TreeShapes} \cup {Pick("tree2", p) : p \in Shapes \X Shapes} ELSE {})
Init == /\ x \in IF ASSIGN THEN Targets(0) ELSE Picks
        /\ c = IF ASSIGN THEN Items(x) ELSE <<>>
        /\ h = <<>>

Apply(op, y) ==
    LET ok == AssignValid(x.d, y)
    IN /\ c' = IF ok THEN OpAssign(x.d, c, op, y) ELSE c
       /\ h' = Append(h, [op |-> op, y |-> y, ok |-> ok])
       /\ UNCHANGED x

\* every source with one operator, every operator with one source per shape; then a second step
First(op, y) == (op = "sub" \/ (AssignValid(x.d, y) /\ y.t \in {"fill", "view", "into"} /\ x.d \in {<<3>>, <<2, 3>>})) = TRUE
Extend == /\ ASSIGN
          /\ Len(h) < Depth
          /\ \E op \in Range10, y \in Sources(0) :
                /\ IF h = <<>> THEN First(op, y)
                   ELSE op = "mul" /\ y.t \in {"fill", "view"} /\ y.o \in {"slice", "expr"} /\ h[1].y.t \in {"view", "into", "bin"} /\ h[1].op = "sub"
                /\ Apply(op, y)
Build ==
    CASE x.f = "bin" ->
           \E a \in Common(1, x.p[1]), b \in Right(2, x.p[2]), op \in Range10 :
              /\ (op = "sub" \/ (OValid(Bin(op, a, b)) /\ ODims(Bin(op, a, b)) \in {<<3>>, <<2, 3>>, <<>>})) = TRUE
              /\ x' = Bin(op, a, b)
      [] x.f = "un" -> \E a \in Common(1, x.p[1]), op \in {"neg", "not"} : x' = Un(op, a)
      [] x.f = "tree3" ->
           \E a \in Tiny(1, x.p[1]), b \in Tiny(2, x.p[2]), e \in Tiny(3, x.p[3]) :
              x' \in {Bin("sub", Bin("div", a, b), e), Bin("shl", a, Bin("rem", b, e))}
      [] x.f = "tree2" ->
           \E a \in Tiny(1, x.p[1]), b \in Tiny(2, x.p[2]) :
              x' \in {Un("neg", Bin("sub", a, b)), Bin("mul", Un("not", a), b), Bin("bitxor", a, Un("neg", b)), Bin("add", Un("neg", Un("not", a)), b)}
Evaluate == ~ASSIGN /\ h = <<>> /\ h' = <<"done">> /\ UNCHANGED c /\ Build
Next == Extend \/ Evaluate
Spec == Init /\ [][Next]_vars

Emit ==
    PrintT("EDGE " \o ToJson(
        IF ASSIGN THEN [t |-> "assign", x |-> x, h |-> h, c |-> c]
        ELSE IF OValid(x) THEN [t |-> "value", x |-> x, k |-> "ok", d |-> ODims(x), i |-> Values(x)]
        ELSE [t |-> "value", x |-> x, k |-> "panic"]))
EmitConstraint == h = <<>> \/ Emit

\* ------------------------------------------------------------- properties
\* the library's evaluation order gives the ideal values
DONE == h = <<"done">>
Refines == (~ASSIGN /\ DONE /\ OValid(x) /\ Whole(x) /\ x.t \in {"bin", "un"}) => Machine(x) = Values(x)
\* and accepts exactly the same operands
SameDomain == (~ASSIGN /\ DONE /\ Whole(x) /\ x.t \in {"bin", "un"}) => (Valid(Lower(x)) <=> OValid(x))
\* a compound assignment never changes the number of elements, and an invalid one nothing
Frame == ASSIGN => Len(c) = Size(x.d)
=============================================================================
