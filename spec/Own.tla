------------------------------- MODULE Own -------------------------------
(***************************************************************************)
(* Owning arrays: what every operation does to the shape, the elements and *)
(* the storage of its operands.                                            *)
(*                                                                         *)
(* An element is <<i, v>>: identity i (unique among all elements ever      *)
(* created) and value v (shared by clones).  An array is [p, d, e]: p = 1  *)
(* if it exists, shape d, elements e in row-major order.                   *)
(*                                                                         *)
(* Expect(op, a, b) gives the outcome of an operation on a (and b):        *)
(*   r     "ok", "panic" (refused), or "err" (Result::Err)                 *)
(*   a, b  the arrays afterwards; in e an identity of 0 stands for any     *)
(*         element that did not exist before or whose origin is not fixed, *)
(*         a value of -1 for any value; d = <<-1>> stands for any shape of *)
(*         the right size                                                  *)
(*   out   elements handed to the caller, in order                         *)
(*   f     operands whose contents are not fixed by the operation          *)
(*         (they must be valid all the same)                               *)
(*   leak  elements may be lost (the caller leaked the owner)              *)
(* Whatever is in no array and not handed out afterwards has been dropped. *)
(***************************************************************************)
EXTENDS Arr

Absent == [p |-> 0, d |-> <<>>, e |-> <<>>]
Arr1(d, e) == [p |-> 1, d |-> d, e |-> e]
AnyShape == <<-1>>

Fresh(v) == <<0, v>>
Clone(e) == [k \in 1..Len(e) |-> Fresh(e[k][2])]
Made(n) == [k \in 1..n |-> Fresh(-1)]
Row(d) == Prod(SubSeq(d, 2, Len(d)))
Rows(e, d, from, to) == SubSeq(e, from * Row(d) + 1, to * Row(d))

Res(r, a, b, out) == [r |-> r, a |-> a, b |-> b, out |-> out, f |-> {}, leak |-> FALSE]
Ok(a, b) == Res("ok", a, b, <<>>)
Refuse(a, b) == Res("panic", a, b, <<>>)

\* ---- shape changes
ResizedTo(a, nd) ==
    Arr1(nd, [k \in 1..Size(nd) |->
        LET ix == Unlin(nd, k - 1)
        IN IF \A i \in 1..Len(nd) : ix[i] < a.d[i] THEN a.e[Lin(a.d, ix) + 1] ELSE Fresh(-1)])
ResizedFill(a, nd, v) ==
    LET r == ResizedTo(a, nd) IN [r EXCEPT !.e = [k \in 1..Len(r.e) |-> IF r.e[k] = Fresh(-1) THEN Fresh(v) ELSE r.e[k]]]

\* elements s of shape sd added after those of a; dyn: a has dynamic rank
CanExpand(a, sd, dyn) ==
    IF Size(sd) = 0 THEN TRUE
    ELSE IF Size(a.d) = 0 THEN dyn \/ Len(sd) = Len(a.d)
    ELSE Len(sd) = Len(a.d) /\ SubSeq(sd, 2, Len(sd)) = SubSeq(a.d, 2, Len(a.d))
Expanded(a, sd, s) ==
    IF Size(sd) = 0 THEN a
    ELSE IF Size(a.d) = 0 THEN Arr1(sd, s)
    ELSE Arr1(<<a.d[1] + sd[1]>> \o SubSeq(a.d, 2, Len(a.d)), a.e \o s)
\* an empty source of another shape may be ignored or refused
ExpandClear(a, sd) == Size(sd) # 0 \/ (Len(sd) = Len(a.d) /\ SubSeq(sd, 2, Len(sd)) = SubSeq(a.d, 2, Len(a.d)))

\* drained rows from..to-1
RangeOf(op, n) == [s |-> IF op.n[1] < 0 THEN 0 ELSE op.n[1],
                   t |-> IF op.n[2] < 0 THEN n ELSE IF op.m = "incl" THEN op.n[2] + 1 ELSE op.n[2]]
RangeOk(r, n) == r.s <= r.t /\ r.t <= n
Closed(a, r) == Arr1(<<a.d[1] - (r.t - r.s)>> \o SubSeq(a.d, 2, Len(a.d)),
                     Rows(a.e, a.d, 0, r.s) \o Rows(a.e, a.d, r.t, a.d[1]))

CutDims(a, r) == <<r.t - r.s>> \o SubSeq(a.d, 2, Len(a.d))

HasHead(a) == a.d # <<>>

\* b can be combined with a element by element: same shape, or (if b's elements
\* are only borrowed, hence repeatable) b's shape is the trailing part of a's
Suffix(sd, d) == Len(sd) <= Len(d) /\ SubSeq(d, Len(d) - Len(sd) + 1, Len(d)) = sd
ZipOk(a, b, m) == a.d = b.d \/ (m = "ref" /\ Suffix(b.d, a.d))
Spread(a, b) == [k \in 1..Len(a.e) |-> Fresh(b.e[((k - 1) % Len(b.e)) + 1][2])]

(***************************************************************************)
(* op = [o |-> name, n |-> numbers, k |-> number, m |-> variant];          *)
(* dyn: dynamic rank; ch: the first dimension is of constant size.         *)
(***************************************************************************)
Expect(op, a, b, dyn, ch) ==
    CASE op.o \in {"resize", "resize_with"} ->
           IF Len(op.n) # Len(a.d) THEN Refuse(a, b)
           ELSE IF op.n = <<>> THEN Ok(a, b)
           ELSE Ok(IF op.o = "resize" THEN ResizedFill(a, op.n, 300) ELSE ResizedTo(a, op.n), b)
      [] op.o = "truncate" ->
           IF ~HasHead(a) \/ ch THEN Refuse(a, b)
           ELSE IF op.k >= a.d[1] THEN Ok(a, b)
           ELSE Ok(Arr1(<<op.k>> \o SubSeq(a.d, 2, Len(a.d)), Rows(a.e, a.d, 0, op.k)), b)
      [] op.o = "clear" -> IF ch THEN Refuse(a, b) ELSE Ok(Arr1(AnyShape, <<>>), b)
      [] op.o \in {"with_capacity", "default"} -> IF ch THEN Refuse(a, b) ELSE Ok(a, Arr1(AnyShape, <<>>))      \* result in b
      [] op.o = "expand" ->        \* m: ref (clones b), val (moves b), map (made by a closure)
           LET gone == IF op.m = "val" THEN Absent ELSE b
           IN IF ~HasHead(a) \/ ch \/ ~CanExpand(a, b.d, dyn) THEN Refuse(a, gone)
              ELSE Ok(Expanded(a, b.d, CASE op.m = "ref" -> Clone(b.e) [] op.m = "val" -> b.e [] OTHER -> Made(Len(b.e))), gone)
      [] op.o = "append" ->
           IF ~HasHead(a) \/ ~HasHead(b) \/ ch \/ ~CanExpand(a, b.d, dyn) THEN [Refuse(a, b) EXCEPT !.f = {"b"}]
           ELSE Ok(Expanded(a, b.d, b.e), Arr1(AnyShape, <<>>))
      [] op.o = "drain" ->         \* k items taken, then m: drop | forget | incl (drop, inclusive range)
           IF ~HasHead(a) \/ ch THEN Refuse(a, b)
           ELSE LET r == RangeOf(op, a.d[1])
                    cut == Rows(a.e, a.d, r.s, r.t)
                IN IF ~RangeOk(r, a.d[1]) THEN Refuse(a, b)
                   ELSE IF op.m = "forget"
                   THEN [Res("ok", a, b, SubSeq(cut, 1, op.k)) EXCEPT !.f = {"a"}, !.leak = TRUE]
                   ELSE Res("ok", Closed(a, r), b, SubSeq(cut, 1, Min2(op.k, Len(cut))))
      [] op.o = "drain_eval" ->    \* the drained rows become an array b; m: eval | map (through a closure)
           IF ~HasHead(a) \/ ch \/ ~RangeOk(RangeOf(op, a.d[1]), a.d[1]) THEN Refuse(a, b)
           ELSE LET r == RangeOf(op, a.d[1])
                    cut == Rows(a.e, a.d, r.s, r.t)
                IN Ok(Closed(a, r), Arr1(CutDims(a, r), IF op.m = "map" THEN Made(Len(cut)) ELSE cut))
      [] op.o = "drain_into" ->    \* the drained rows move into b; m: expand | assign
           IF ~HasHead(a) \/ ch \/ ~RangeOk(RangeOf(op, a.d[1]), a.d[1]) THEN Refuse(a, b)
           ELSE LET r == RangeOf(op, a.d[1])
                    cut == Rows(a.e, a.d, r.s, r.t)
                    cd == CutDims(a, r)
                IN IF op.m = "expand"
                   THEN IF HasHead(b) /\ CanExpand(b, cd, dyn) THEN Ok(Closed(a, r), Expanded(b, cd, cut)) ELSE Refuse(Closed(a, r), b)
                   ELSE IF b.d = cd THEN Ok(Closed(a, r), Arr1(cd, cut)) ELSE Refuse(Closed(a, r), b)
      [] op.o = "zip_iter" ->      \* k pairs taken from both, then m: drop | forget | fold (all pairs, internally)
           IF a.d # b.d THEN Refuse(Absent, Absent)
           ELSE LET k == IF op.m = "fold" THEN Len(a.e) ELSE op.k
                IN [Res("ok", Absent, Absent, [i \in 1..(2 * k) |-> IF i % 2 = 1 THEN a.e[(i + 1) \div 2] ELSE b.e[i \div 2]])
                      EXCEPT !.leak = (op.m = "forget")]
      [] op.o = "extend" ->        \* k elements from an iterator, rank 1
           Ok(Arr1(<<a.d[1] + op.k>>, a.e \o Made(op.k)), b)
      [] op.o = "into_iter" ->     \* k items taken, then m: drop | forget | fold
           IF op.m = "fold" THEN Res("ok", Absent, b, a.e)
           ELSE [Res("ok", Absent, b, SubSeq(a.e, 1, op.k)) EXCEPT !.leak = (op.m = "forget")]
      [] op.o \in {"clone", "to_tensor", "to_owned", "expr_clone"} -> Ok(a, Arr1(a.d, Clone(a.e)))   \* result in b
      [] op.o \in {"clone_from", "clone_into", "expr_clone_from"} -> Ok(Arr1(b.d, Clone(b.e)), b)         \* a becomes a copy of b
      [] op.o = "to_vec" -> Ok(a, Arr1(<<Size(a.d)>>, Clone(a.e)))
      [] op.o \in {"into_vec", "into_flat"} -> Ok(Arr1(<<Size(a.d)>>, a.e), b)
      [] op.o \in {"into_dyn", "raw_parts", "into_expr_eval", "reserve", "reserve_exact", "shrink_to", "shrink_to_fit",
                   "via_array", "into_buffer", "eq", "contains"} -> Ok(a, b)
      \* write k rows to the spare capacity, then extend the shape over them
      [] op.o = "spare" -> Ok(IF op.k = 0 \/ ~HasHead(a) THEN a ELSE Arr1(<<a.d[1] + op.k>> \o SubSeq(a.d, 2, Len(a.d)), a.e \o Made(op.k * Row(a.d))), b)
      \* a shape whose number of elements (or bytes) is not representable; op.k selects one
      [] op.o = "overflow" -> Refuse(IF op.m = "into_shape" THEN Absent ELSE a, b)
      [] op.o = "try_reserve" -> IF op.m = "huge" THEN Res("err", a, b, <<>>) ELSE Ok(a, b)
      [] op.o = "reserve_huge" -> Refuse(a, b)
      [] op.o = "into_shape" -> IF Size(op.n) = Len(a.e) THEN Ok(Arr1(op.n, a.e), b) ELSE Refuse(Absent, b)
      [] op.o = "into_mapping" -> IF Len(op.n) = Len(a.d) THEN Ok(a, b) ELSE Refuse(Absent, b)
      [] op.o = "into_scalar" -> IF Len(a.e) = 1 THEN Res("ok", Absent, b, a.e) ELSE Refuse(Absent, b)
      [] op.o \in {"map", "apply", "array_map"} -> Ok(Arr1(a.d, Made(Len(a.e))), b)
      [] op.o = "zip_with" ->      \* m: ref | val
           LET gone == IF op.m = "val" THEN Absent ELSE b
           IN IF ZipOk(a, b, op.m) THEN Ok(Arr1(a.d, Made(Len(a.e))), gone) ELSE Refuse(Absent, gone)
      [] op.o = "assign" ->
           LET gone == IF op.m = "val" THEN Absent ELSE b
           IN IF ZipOk(a, b, op.m)
              THEN Ok(Arr1(a.d, IF Len(a.e) = 0 THEN <<>> ELSE IF op.m = "val" THEN b.e ELSE Spread(a, b)), gone)
              ELSE Refuse(a, gone)
      [] op.o = "fill" -> Ok(Arr1(a.d, [k \in 1..Len(a.e) |-> Fresh(300)]), b)
      [] op.o = "fill_with" -> Ok(Arr1(a.d, Made(Len(a.e))), b)
      \* constructors: result in b
      [] op.o \in {"from_fn", "array_from_fn", "from_expr", "collect"} -> Ok(a, Arr1(op.n, Made(Size(op.n))))
      [] op.o \in {"from_elem", "array_from_elem"} -> Ok(a, Arr1(op.n, [k \in 1..Size(op.n) |-> Fresh(300)]))
      [] op.o = "replace" -> Ok(b, Absent)                                              \* *a = b
      [] op.o = "drop" -> Ok(Absent, b)
      [] op.o = "drop_b" -> Ok(a, Absent)
      [] op.o = "swap" -> Ok(b, a)

\* Operands that a panic of user code during the operation may change.  "x": consumed.
Exposed(op) ==
    CASE op.o \in {"resize", "resize_with", "extend", "clone_from", "clone_into", "expr_clone_from", "fill", "fill_with"} -> {"a"}
      [] op.o = "expand" -> IF op.m = "val" THEN {"a", "xb"} ELSE {"a"}
      [] op.o = "append" -> {"a", "b"}
      [] op.o \in {"map", "apply", "array_map", "into_iter"} -> {"xa"}
      [] op.o \in {"drain", "drain_eval", "drain_into"} -> {"a"}
      [] op.o = "zip_iter" -> {"xa", "xb"}
      [] op.o = "zip_with" -> IF op.m = "val" THEN {"xa", "xb"} ELSE {"xa"}
      [] op.o = "assign" -> IF op.m = "val" THEN {"a", "xb"} ELSE {"a"}
      [] OTHER -> {}

(***************************************************************************)
(* Storage: bounds on the capacity of a after an operation that had        *)
(* capacity c before: at least lo, at most hi (-1: no bound).              *)
(***************************************************************************)
CapLo(op, a2, c, r) ==
    CASE op.o \in {"reserve", "reserve_exact"} /\ r = "ok" -> Len(a2.e) + op.k
      [] op.o = "try_reserve" /\ r = "ok" -> Len(a2.e) + op.k
      [] op.o = "shrink_to" -> Max2(Len(a2.e), Min2(c, op.k))
      [] op.o \in {"truncate", "clear", "drain", "drain_eval", "drain_into"} -> c
      [] OTHER -> Len(a2.e)
CapHi(op, a2, c, r) ==
    CASE op.o \in {"shrink_to", "shrink_to_fit", "truncate", "clear", "drain", "drain_eval", "drain_into"} -> c
      [] op.o \in {"expand", "extend", "append"} /\ r = "ok" /\ Len(a2.e) <= c -> c
      [] op.o \in {"reserve", "reserve_exact", "try_reserve"} /\ r = "ok" /\ Len(a2.e) + op.k <= c -> c
      [] op.o \in {"reserve_huge", "try_reserve"} /\ r # "ok" -> c
      [] OTHER -> -1

\* ---------------------------------------------------------------- validity
Valid(a) == a.p = 0 \/ (Size(a.d) = Len(a.e))
Ids(s) == {s[k][1] : k \in 1..Len(s)}
Distinct(s) == Cardinality(Ids(s)) = Len(s)
=============================================================================
