------------------------------- MODULE Expr -------------------------------
(***************************************************************************)
(* Expressions and their iteration, on two levels.                         *)
(*                                                                         *)
(*   ideal     Dims(x), ItemAt(x, ix, n): the shape of an expression and   *)
(*             the item at index ix when it is the n-th one evaluated.     *)
(*   machine   the library's iteration protocol (expr/iter.rs): an         *)
(*             expression with a mutable position that is advanced by      *)
(*             StepDim/ResetDim/Get, driven by an iterator that keeps an   *)
(*             inner position and a multi-dimensional outer position.      *)
(*                                                                         *)
(* ExprGen checks that the machine yields the ideal items, item by item.   *)
(*                                                                         *)
(* An expression is a tree of records.  Leaves                             *)
(*   [t |-> kind, id, d |-> dims, s |-> strides, f |-> offset, p |-> pos]  *)
(* with kinds view, viewmut (elements by reference), into, drain (elements *)
(* by value), fill, fillwith, elem, fn (computed), axis, axismut, lanes,   *)
(* lanesmut (sub-arrays along/across axis a of a slice d, s, f); l is the  *)
(* layout type: S strided, D dense, R dense with dynamic rank.  Inner      *)
(* nodes: map, enum, cloned, copied [t, x], zip [t, x, y].                 *)
(* Item values are integers, or sequences for composed items.              *)
(***************************************************************************)
EXTENDS Arr

ElemLeaf == {"view", "viewmut"}
OwnLeaf == {"into", "drain"}
SubLeaf == {"axis", "axismut", "lanes", "lanesmut"}
Unary == {"map", "enum", "cloned", "copied"}

TailN(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))

RECURSIVE Dims(_)
Dims(x) ==
    CASE x.t \in {"axis", "axismut"} -> << x.d[x.a + 1] >>
      [] x.t \in {"lanes", "lanesmut"} -> RemoveAt1(x.d, x.a + 1)
      [] x.t \in {"fill", "fillwith"} -> <<>>
      [] x.t \in Unary -> Dims(x.x)
      [] x.t = "zip" -> IF Len(Dims(x.x)) < Len(Dims(x.y)) THEN Dims(x.y) ELSE Dims(x.x)
      [] OTHER -> x.d
RankOf(x) == Len(Dims(x))

\* can be restarted: moved or mutably borrowed items cannot be given twice
RECURSIVE Repeatable(_)
Repeatable(x) ==
    CASE x.t \in {"viewmut", "into", "drain", "axismut", "lanesmut"} -> FALSE
      [] x.t \in Unary -> Repeatable(x.x)
      [] x.t = "zip" -> Repeatable(x.x) /\ Repeatable(x.y)
      [] OTHER -> TRUE

\* does constructing the expression succeed?
RECURSIVE Valid(_)
Valid(x) ==
    CASE x.t \in SubLeaf -> x.a < Len(x.d)
      [] x.t \in Unary -> Valid(x.x)
      [] x.t = "zip" ->
           /\ Valid(x.x) /\ Valid(x.y)
           /\ LET a == Dims(x.x)
                  b == Dims(x.y)
                  m == Min2(Len(a), Len(b))
              IN /\ TailN(a, m) = TailN(b, m)
                 /\ Len(a) >= Len(b) \/ Repeatable(x.x)
                 /\ Len(b) >= Len(a) \/ Repeatable(x.y)
      [] OTHER -> TRUE

\* a sub-array item: its shape and its elements in row-major order
SubItem(id, d, cells) == << d, [k \in 1..Len(cells) |-> 1000 * id + cells[k]] >>
CellsAt(d, s, f) == [k \in 1..Size(d) |-> f + Dot(Unlin(d, k - 1), s)]

AxisItem(x, i) ==
    SubItem(x.id, RemoveAt1(x.d, x.a + 1),
            CellsAt(RemoveAt1(x.d, x.a + 1), RemoveAt1(x.s, x.a + 1), x.f + x.s[x.a + 1] * i))
LaneItem(x, ix) ==
    LET full == InsertAt1(ix, x.a + 1, 0)
    IN SubItem(x.id, << x.d[x.a + 1] >>, [k \in 1..x.d[x.a + 1] |-> x.f + Dot(full, x.s) + (k - 1) * x.s[x.a + 1]])

RECURSIVE ItemAt(_, _, _)
ItemAt(x, ix, n) ==
    CASE x.t \in ElemLeaf -> 1000 * x.id + x.f + Dot(ix, x.s)
      [] x.t \in OwnLeaf -> 1000 * x.id + x.f + Lin(x.d, ix)
      [] x.t = "fill" -> 1000 * x.id
      [] x.t = "fillwith" -> 1000 * x.id + n
      [] x.t = "elem" -> 1000 * x.id
      [] x.t = "fn" -> << 1000 * x.id >> \o ix
      [] x.t \in {"axis", "axismut"} -> AxisItem(x, ix[1])
      [] x.t \in {"lanes", "lanesmut"} -> LaneItem(x, ix)
      [] x.t = "map" -> << -1, ItemAt(x.x, ix, n) >>
      [] x.t = "enum" -> << n, ItemAt(x.x, ix, n) >>
      [] x.t \in {"cloned", "copied"} -> ItemAt(x.x, ix, n)
      [] x.t = "zip" -> << ItemAt(x.x, TailN(ix, RankOf(x.x)), n), ItemAt(x.y, TailN(ix, RankOf(x.y)), n) >>

Items(x) == [k \in 1..Size(Dims(x)) |-> ItemAt(x, Unlin(Dims(x), k - 1), k - 1)]

----------------------------------------------------------------------------
(* The machine.  Positions: view* and lanes*, axis* keep an offset p, into *)
(* and drain the number of items taken, fn its current index (the last     *)
(* component advances by itself), fillwith and enum a count.               *)
Inf == 1000000
RECURSIVE Begin(_)
Begin(x) ==
    CASE x.t \in Unary \ {"enum"} -> [x EXCEPT !.x = Begin(x.x)]
      [] x.t = "enum" -> [x EXCEPT !.x = Begin(x.x)] @@ [p |-> 0]
      [] x.t = "zip" -> [x EXCEPT !.x = Begin(x.x), !.y = Begin(x.y)]
      [] x.t = "fn" -> x @@ [p |-> Zeros(Len(x.d))]
      [] x.t \in ElemLeaf -> x @@ [p |-> x.f]
      [] OTHER -> x @@ [p |-> 0]

\* strides that the machine steps along
SubStr(x) == IF x.t \in {"lanes", "lanesmut"} THEN RemoveAt1(x.s, x.a + 1) ELSE x.s
Inner(s) == IF s = <<>> THEN 0 ELSE s[Len(s)]

RECURSIVE InnerRank(_)
InnerRank(x) ==
    CASE x.t \in ElemLeaf -> IF x.l = "R" THEN Len(x.d)
                             ELSE IF x.l = "D" THEN (IF x.d = <<>> THEN Inf ELSE Len(x.d))
                             ELSE IF x.d # <<>> THEN 1 ELSE Inf
      [] x.t \in {"axis", "axismut"} -> 1
      [] x.t \in {"lanes", "lanesmut"} ->
           IF Len(x.d) <= 1 THEN Inf
           ELSE IF x.l # "S" /\ x.a = 0 THEN Len(x.d) - 1 ELSE 1
      [] x.t = "fn" -> IF x.d # <<>> THEN 1 ELSE Inf
      [] x.t \in Unary -> InnerRank(x.x)
      [] x.t = "zip" -> Min2(InnerRank(x.x), InnerRank(x.y))
      [] OTHER -> Inf

RECURSIVE StepDim(_, _)
StepDim(x, i) ==     \* i 1-based
    CASE x.t \in ElemLeaf \cup {"lanes", "lanesmut"} -> [x EXCEPT !.p = x.p + SubStr(x)[i]]
      [] x.t \in {"axis", "axismut"} -> [x EXCEPT !.p = x.p + x.s[x.a + 1]]
      [] x.t = "fn" -> IF i < Len(x.d) THEN [x EXCEPT !.p[i] = x.p[i] + 1] ELSE x
      [] x.t \in Unary -> [x EXCEPT !.x = StepDim(x.x, i)]
      [] x.t = "zip" ->
           LET delta == RankOf(x) - i
               Sub(y) == IF delta < RankOf(y) THEN StepDim(y, RankOf(y) - delta) ELSE y
           IN [x EXCEPT !.x = Sub(x.x), !.y = Sub(x.y)]
      [] OTHER -> x

RECURSIVE ResetDim(_, _, _)
ResetDim(x, i, c) ==
    CASE x.t \in ElemLeaf \cup {"lanes", "lanesmut"} -> [x EXCEPT !.p = x.p - SubStr(x)[i] * c]
      [] x.t \in {"axis", "axismut"} -> [x EXCEPT !.p = 0]
      [] x.t = "fn" -> [x EXCEPT !.p[i] = 0]
      [] x.t \in Unary -> [x EXCEPT !.x = ResetDim(x.x, i, c)]
      [] x.t = "zip" ->
           LET delta == RankOf(x) - i
               Sub(y) == IF delta < RankOf(y) THEN ResetDim(y, RankOf(y) - delta, c) ELSE y
           IN [x EXCEPT !.x = Sub(x.x), !.y = Sub(x.y)]
      [] OTHER -> x

\* <<item, expression afterwards>>
RECURSIVE Get(_, _)
Get(x, j) ==
    CASE x.t \in ElemLeaf -> << 1000 * x.id + x.p + Inner(x.s) * j, x >>
      [] x.t \in OwnLeaf -> << 1000 * x.id + x.f + x.p, [x EXCEPT !.p = x.p + 1] >>
      [] x.t = "fill" -> << 1000 * x.id, x >>
      [] x.t = "fillwith" -> << 1000 * x.id + x.p, [x EXCEPT !.p = x.p + 1] >>
      [] x.t = "elem" -> << 1000 * x.id, x >>
      [] x.t = "fn" -> << << 1000 * x.id >> \o x.p,
                          IF x.d = <<>> THEN x ELSE [x EXCEPT !.p[Len(x.d)] = x.p[Len(x.d)] + 1] >>
      [] x.t \in {"axis", "axismut"} ->
           << SubItem(x.id, RemoveAt1(x.d, x.a + 1),
                      CellsAt(RemoveAt1(x.d, x.a + 1), RemoveAt1(x.s, x.a + 1),
                              x.f + x.p + x.s[x.a + 1] * j)), x >>
      [] x.t \in {"lanes", "lanesmut"} ->
           << SubItem(x.id, << x.d[x.a + 1] >>,
                      [k \in 1..x.d[x.a + 1] |-> x.f + x.p + Inner(SubStr(x)) * j + (k - 1) * x.s[x.a + 1]]), x >>
      [] x.t = "map" -> LET g == Get(x.x, j) IN << << -1, g[1] >>, [x EXCEPT !.x = g[2]] >>
      [] x.t = "enum" -> LET g == Get(x.x, j) IN << << x.p, g[1] >>, [x EXCEPT !.x = g[2], !.p = x.p + 1] >>
      [] x.t \in {"cloned", "copied"} -> LET g == Get(x.x, j) IN << g[1], [x EXCEPT !.x = g[2]] >>
      [] x.t = "zip" -> LET g == Get(x.x, j)
                            h == Get(x.y, j)
                        IN << << g[1], h[1] >>, [x EXCEPT !.x = g[2], !.y = h[2]] >>

\* iterator: expression, inner index/limit, outer index/limit
OuterRank(x) == Max2(0, RankOf(x) - Min2(InnerRank(x), RankOf(x)))
IterNew(x) ==
    LET d == Dims(x)
        o == OuterRank(x)
        e == Empty(d)
    IN [x |-> Begin(x), ii |-> 0,
        il |-> IF o > 0 /\ e THEN 0 ELSE Prod(SubSeq(d, o + 1, Len(d))),
        oi |-> Zeros(o), ol |-> IF e THEN Zeros(o) ELSE SubSeq(d, 1, o)]

RECURSIVE StepFrom(_, _)
StepFrom(it, i) ==
    IF i = 0 THEN [it EXCEPT !.oi = Zeros(Len(it.oi)), !.ol = [k \in 1..Len(it.ol) |-> 1]]
    ELSE IF it.oi[i] + 1 < it.ol[i]
    THEN [it EXCEPT !.x = StepDim(it.x, i), !.oi[i] = it.oi[i] + 1, !.ii = 0]
    ELSE StepFrom([it EXCEPT !.x = ResetDim(it.x, i, it.oi[i]), !.oi[i] = 0], i - 1)
\* advance the outer position; ii = il afterwards if nothing is left
StepOuter(it) ==
    LET r == RankOf(it.x)
    IN StepFrom(IF Len(it.oi) < r THEN [it EXCEPT !.x = ResetDim(it.x, r, 0)] ELSE it, Len(it.oi))

\* one call of next: <<item>> or <<>>, and the iterator afterwards
IterNext(it) ==
    LET a == IF it.ii = it.il THEN StepOuter(it) ELSE it
    IN IF a.ii = a.il THEN << <<>>, a >>
       ELSE LET g == Get(a.x, a.ii)
            IN << << g[1] >>, [a EXCEPT !.x = g[2], !.ii = a.ii + 1] >>

Hint(it) ==
    LET o == FoldLeft(LAMBDA acc, i : acc * it.ol[i] - it.oi[i], 1, [i \in 1..Len(it.ol) |-> i])
    IN o * it.il - it.ii

----------------------------------------------------------------------------
(* Assignment: a target slice and a source expression.                     *)
AssignOk(t, x) == Valid(x) /\ Valid([t |-> "zip", x |-> t, y |-> x])
=============================================================================
