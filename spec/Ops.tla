-------------------------------- MODULE Ops --------------------------------
(***************************************************************************)
(* Operators on arrays and expressions.                                    *)
(*                                                                         *)
(* An operand is a leaf of Expr.tla with a form o (how the caller hands it *)
(* over: by reference to a slice, tensor, array, view; by value), or a     *)
(* tree [t |-> "bin", op, x, y], [t |-> "un", op, x].  Values are terms:   *)
(* <<op, left, right>>, <<op, operand>>, so that any mistake about which   *)
(* operator, which operand or which side shows up in the result.           *)
(*                                                                         *)
(*   ideal     Val(x, ix, n)                                               *)
(*   machine   Lower(x): what the library evaluates, a map over a zip that *)
(*             has the operands swapped unless the left one is an owned    *)
(*             array (ops.rs); Trans maps its items to terms.              *)
(***************************************************************************)
EXTENDS Expr

BinOps == <<"add", "sub", "mul", "div", "rem", "bitand", "bitor", "bitxor", "shl", "shr">>
UnOps == <<"neg", "not">>

\* arrays handed over by value are consumed at once and give their storage to the result
RECURSIVE Owned(_)
Owned(x) ==
    CASE x.t = "bin" -> Owned(x.x) \/ Owned(x.y)
      [] x.t = "un" -> Owned(x.x)
      [] OTHER -> x.t = "into" /\ x.o \in {"tensor", "array"}

RECURSIVE ODims(_)
ODims(x) ==
    CASE x.t = "bin" -> IF Len(ODims(x.x)) < Len(ODims(x.y)) THEN ODims(x.y) ELSE ODims(x.x)
      [] x.t = "un" -> ODims(x.x)
      [] OTHER -> Dims(x)

RECURSIVE ORepeat(_)
ORepeat(x) ==
    CASE x.t = "bin" -> ~Owned(x) /\ ORepeat(x.x) /\ ORepeat(x.y)
      [] x.t = "un" -> ~Owned(x) /\ ORepeat(x.x)
      [] OTHER -> Repeatable(x)

RECURSIVE OValid(_)
OValid(x) ==
    CASE x.t = "bin" ->
           /\ OValid(x.x) /\ OValid(x.y)
           /\ LET a == ODims(x.x)
                  b == ODims(x.y)
                  m == Min2(Len(a), Len(b))
              IN /\ TailN(a, m) = TailN(b, m)
                 /\ Len(a) >= Len(b) \/ ORepeat(x.x)
                 /\ Len(b) >= Len(a) \/ ORepeat(x.y)
      [] x.t = "un" -> OValid(x.x)
      [] OTHER -> Valid(x)

\* value at index ix, as the n-th one evaluated; an owned result was evaluated by itself before
RECURSIVE Val(_, _, _)
Val(x, ix, n) ==
    LET m == IF Owned(x) THEN Lin(ODims(x), ix) ELSE n
    IN CASE x.t = "bin" -> << x.op, Val(x.x, TailN(ix, Len(ODims(x.x))), m), Val(x.y, TailN(ix, Len(ODims(x.y))), m) >>
         [] x.t = "un" -> << x.op, Val(x.x, ix, m) >>
         [] OTHER -> ItemAt(x, ix, m)
Values(x) == [k \in 1..Size(ODims(x)) |-> Val(x, Unlin(ODims(x), k - 1), k - 1)]

----------------------------------------------------------------------------
\* the library's evaluation
RECURSIVE Lower(_)
Lower(x) ==
    CASE x.t = "bin" -> IF Owned(x.x) THEN [t |-> "map", x |-> [t |-> "zip", x |-> Lower(x.x), y |-> Lower(x.y)]]
                        ELSE [t |-> "map", x |-> [t |-> "zip", x |-> Lower(x.y), y |-> Lower(x.x)]]
      [] x.t = "un" -> [t |-> "map", x |-> Lower(x.x)]
      [] OTHER -> x
RECURSIVE Trans(_, _)
Trans(x, v) ==
    CASE x.t = "bin" -> IF Owned(x.x) THEN << x.op, Trans(x.x, v[2][1]), Trans(x.y, v[2][2]) >>
                        ELSE << x.op, Trans(x.x, v[2][2]), Trans(x.y, v[2][1]) >>
      [] x.t = "un" -> << x.op, Trans(x.x, v[2]) >>
      [] OTHER -> v
\* an owned inner result is an array of its own, so only trees without one are lowered as a whole
RECURSIVE Flat(_)
Flat(x) == CASE x.t = "bin" -> ~Owned(x) /\ Flat(x.x) /\ Flat(x.y)
             [] x.t = "un" -> ~Owned(x) /\ Flat(x.x)
             [] OTHER -> TRUE
Whole(x) == CASE x.t = "bin" -> Flat(x.x) /\ Flat(x.y)
              [] x.t = "un" -> Flat(x.x)
              [] OTHER -> TRUE

RECURSIVE RunMachine(_, _)
RunMachine(it, k) == IF k = 0 THEN <<>> ELSE LET r == IterNext(it) IN r[1] \o RunMachine(r[2], k - 1)
Machine(x) == LET y == Lower(x)
                  v == RunMachine(IterNew(y), Size(Dims(y)) + 1)
              IN [k \in 1..Len(v) |-> Trans(x, v[k])]

----------------------------------------------------------------------------
\* compound assignment: contents c of a target with shape d (row-major)
AssignValid(d, y) ==
    OValid(y) /\ LET b == ODims(y) IN Len(b) <= Len(d) /\ TailN(d, Len(b)) = b /\ (Len(b) = Len(d) \/ ORepeat(y))
OpAssign(d, c, op, y) ==
    [k \in 1..Len(c) |-> << op, c[k], Val(y, TailN(Unlin(d, k - 1), Len(ODims(y))), k - 1) >>]
=============================================================================
