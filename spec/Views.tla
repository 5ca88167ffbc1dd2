------------------------------- MODULE Views -------------------------------
(***************************************************************************)
(* Views of an array.  A view is specified on two levels at once:          *)
(*   ideal    dims, cells : the shape and, in row-major order, which cell  *)
(*            of the underlying storage each index denotes;                *)
(*   concrete off, str    : offset and strides, the representation that    *)
(*            the library uses (mapping.rs, index/view.rs, index/axis.rs). *)
(* Apply(v, o) gives the outcome of operation o on view v; its concrete    *)
(* part transcribes the library's algorithms, its ideal part says which    *)
(* elements the user asked for.  Refines(v) ties the two together and is   *)
(* checked in every reachable state.                                       *)
(*                                                                         *)
(* An operation is a record [o |-> name, a |-> arguments], where arguments *)
(* is a sequence of integer sequences; an outcome is                       *)
(*   [k |-> "ok", v |-> view]   the view the operation must return         *)
(*   [k |-> "panic"]            the operation must panic                   *)
(*   [k |-> "gap", v |-> view]  documentation leaves refusal open: panic,  *)
(*                              or exactly this view                       *)
(***************************************************************************)
EXTENDS Arr

Base(d) == [dims |-> d, cells |-> [k \in 1..Size(d) |-> k - 1], off |-> 0, str |-> DenseStr(d)]

Refines(v) == v.cells = [k \in 1..Size(v.dims) |-> v.off + Dot(Unlin(v.dims, k - 1), v.str)]
Injective(v) == \A i, j \in DOMAIN v.cells : v.cells[i] = v.cells[j] => i = j

Rank(v) == Len(v.dims)
CellAt(v, ix) == v.cells[Lin(v.dims, ix) + 1]

\* The ideal sub-view with shape d whose index ix denotes index f[ix] of v.
Pick(v, d, F(_)) == [k \in 1..Size(d) |-> CellAt(v, F(Unlin(d, k - 1)))]

Panic == [k |-> "panic"]
Ok(v) == [k |-> "ok", v |-> v]
Gap(v) == [k |-> "gap", v |-> v]

\* the offset is only applied if the resulting view is non-empty
Mk(v, d, cells, delta, str) ==
    [dims |-> d, cells |-> cells, off |-> IF Empty(d) THEN v.off ELSE v.off + delta, str |-> str]

----------------------------------------------------------------------------
(* Selection                                                                *)
AxisAt(v, k, i) ==      \* k 0-based axis
    IF k < 0 \/ k >= Rank(v) \/ i < 0 THEN Panic
    ELSE IF i >= v.dims[k + 1] THEN Panic
    ELSE LET d == RemoveAt1(v.dims, k + 1)
             F(ix) == InsertAt1(ix, k + 1, i)
         IN Ok(Mk(v, d, Pick(v, d, F), v.str[k + 1] * i, RemoveAt1(v.str, k + 1)))

Split(v, k, mid, half) ==
    IF k >= Rank(v) THEN Panic
    ELSE IF mid > v.dims[k + 1] THEN Panic
    ELSE LET n == IF half = 0 THEN mid ELSE v.dims[k + 1] - mid
             s == IF half = 0 THEN 0 ELSE mid
             d == ReplaceAt1(v.dims, k + 1, n)
             F(ix) == ReplaceAt1(ix, k + 1, ix[k + 1] + s)
         IN Ok(Mk(v, d, Pick(v, d, F), v.str[k + 1] * s, v.str))

Diag(v, n) ==
    IF Rank(v) # 2 THEN Panic
    ELSE IF n > v.dims[2] \/ -n > v.dims[1] THEN Panic
    ELSE LET r0 == Max2(0, -n)
             c0 == Max2(0, n)
             d == <<Min2(v.dims[1] - r0, v.dims[2] - c0)>>
             F(ix) == <<ix[1] + r0, ix[1] + c0>>
         IN Ok(Mk(v, d, Pick(v, d, F), r0 * v.str[1] + c0 * v.str[2], <<v.str[1] + v.str[2]>>))

\* one entry of a view(..) argument list: <<kind, lo, hi, step>>
\*   0 single index lo, 1 full range, 2 range lo..hi, 3 stepped range
DimPanics(n, a) ==
    \/ a[1] = 0 /\ (a[2] < 0 \/ a[2] >= n)
    \/ a[1] \in {2, 3} /\ (a[2] > a[3] \/ a[3] > n)
    \/ a[1] = 3 /\ a[4] = 0
DimLen(n, a) == IF a[1] = 1 THEN n
                ELSE IF a[1] = 2 THEN a[3] - a[2]
                ELSE CeilDiv(a[3] - a[2], Abs(a[4]))
DimStart(n, a) == IF a[1] = 1 THEN 0
                  ELSE IF a[1] = 3 /\ a[4] < 0 /\ a[3] > a[2] THEN a[3] - 1
                  ELSE a[2]
DimStep(a) == IF a[1] = 3 THEN a[4] ELSE 1

ViewOp(v, args) ==
    IF Len(args) # Rank(v) THEN Panic
    ELSE IF \E i \in 1..Len(args) : DimPanics(v.dims[i], args[i]) THEN Panic
    ELSE LET kept == SelectSeq([i \in 1..Len(args) |-> i], LAMBDA i : args[i][1] # 0)
             d == [j \in 1..Len(kept) |-> DimLen(v.dims[kept[j]], args[kept[j]])]
             pos(i) == CHOOSE j \in 1..Len(kept) : kept[j] = i
             F(ix) == [i \in 1..Len(args) |->
                         IF args[i][1] = 0 THEN args[i][2]
                         ELSE DimStart(v.dims[i], args[i]) + DimStep(args[i]) * ix[pos(i)]]
             delta == SumSeq([i \in 1..Len(args) |->
                         v.str[i] * (IF args[i][1] = 0 THEN args[i][2] ELSE DimStart(v.dims[i], args[i]))])
             str == [j \in 1..Len(kept) |-> v.str[kept[j]] * DimStep(args[kept[j]])]
         IN Ok(Mk(v, d, Pick(v, d, F), delta, str))

----------------------------------------------------------------------------
(* Transformation                                                           *)
Permute(v, p) ==
    IF Len(p) # Rank(v) \/ {p[i] : i \in DOMAIN p} # 0..(Rank(v) - 1) THEN Panic
    ELSE LET d == [i \in 1..Len(p) |-> v.dims[p[i] + 1]]
             F(ix) == [i \in 1..Rank(v) |-> ix[CHOOSE j \in 1..Len(p) : p[j] = i - 1]]
         IN Ok(Mk(v, d, Pick(v, d, F), 0, [i \in 1..Len(p) |-> v.str[p[i] + 1]]))

Reorder(v) ==
    LET d == Rev(v.dims)
        F(ix) == Rev(ix)
    IN Ok(Mk(v, d, Pick(v, d, F), 0, Rev(v.str)))

\* StridedMapping::reshape, transcribed.
RECURSIVE RAdd(_, _)
RAdd(st, nd) ==
    IF st.j > 0 /\ st.nl * nd[st.j] <= st.ol
    THEN RAdd([st EXCEPT !.nstr[st.j] = st.ns, !.nl = st.nl * nd[st.j],
                         !.ns = st.ns * nd[st.j], !.j = st.j - 1], nd)
    ELSE st
RECURSIVE RAll(_, _)
RAll(st, nd) ==
    IF st.j > 0
    THEN RAll([st EXCEPT !.nstr[st.j] = st.ns, !.nl = st.nl * nd[st.j],
                         !.ns = st.ns * nd[st.j], !.j = st.j - 1], nd)
    ELSE st
RECURSIVE RLoop(_, _, _, _)
RLoop(st, v, nd, i) ==
    IF i = 0 THEN RAll(st, nd)
    ELSE LET a == IF st.ol = st.nl
                  THEN [st EXCEPT !.os = v.str[i], !.ns = v.str[i]]
                  ELSE [st EXCEPT !.valid = st.valid /\ st.os = v.str[i]]
             b == [a EXCEPT !.ol = a.ol * v.dims[i], !.os = a.os * v.dims[i]]
         IN RLoop(RAdd(b, nd), v, nd, i - 1)
StridedReshape(v, nd) ==
    RLoop([j |-> Len(nd), ol |-> 1, nl |-> 1, os |-> 1, ns |-> 1, valid |-> TRUE,
           nstr |-> Zeros(Len(nd))], v, nd, Rank(v))

\* Is the same row-major sequence of cells an affine view of shape nd?
Unit(n, j) == [i \in 1..n |-> IF i = j THEN 1 ELSE 0]
Representable(v, nd) ==
    \/ Empty(nd)
    \/ LET w == [v EXCEPT !.dims = nd]
           s == [j \in 1..Len(nd) |-> IF nd[j] > 1 THEN CellAt(w, Unit(Len(nd), j)) - v.cells[1] ELSE 0]
       IN v.cells = [k \in 1..Len(v.cells) |-> v.cells[1] + Dot(Unlin(nd, k - 1), s)]

\* the requested shape may leave one dimension (-1) to be inferred
Resolve(v, nd) ==
    LET inf == {i \in DOMAIN nd : nd[i] = -1}
        rest == Prod([i \in DOMAIN nd |-> IF nd[i] = -1 THEN 1 ELSE nd[i]])
    IN IF Cardinality(inf) > 1 THEN <<>>
       ELSE IF inf = {} THEN IF rest = Size(v.dims) THEN <<nd>> ELSE <<>>
       ELSE IF rest = 0 THEN <<>>
       ELSE IF Size(v.dims) % rest # 0 THEN <<>>
       ELSE <<[i \in DOMAIN nd |-> IF nd[i] = -1 THEN Size(v.dims) \div rest ELSE nd[i]]>>

Reshape(v, req) ==
    LET r == Resolve(v, req)
    IN IF r = <<>> THEN Panic
       ELSE LET nd == r[1]
                st == StridedReshape(v, nd)
                w == [dims |-> nd, cells |-> v.cells, off |-> v.off, str |-> st.nstr]
            IN IF st.nl = 0 \/ st.valid THEN Ok(w)
               ELSE IF Representable(v, nd) THEN Gap(w)
               ELSE Panic

Flatten(v) == Reshape(v, <<Size(v.dims)>>)

Determined(v) == IF Empty(v.dims) THEN {} ELSE {i \in DOMAIN v.dims : v.dims[i] > 1}
StrictlyDense(v) == v.str = DenseStr(v.dims)
LooselyDense(v) == \A i \in Determined(v) : v.str[i] = DenseStr(v.dims)[i]

RemapDense(v) == IF StrictlyDense(v) THEN Ok(v) ELSE IF LooselyDense(v) THEN Gap(v) ELSE Panic

\* Conversion to a shape type; p[i] = -1 is a dynamic dimension, otherwise
\* constant; p = <<-2>> is dynamic rank.
MatchesType(d, p) == p = <<-2>> \/ (Len(p) = Len(d) /\ \A i \in DOMAIN p : p[i] = -1 \/ p[i] = d[i])
RemapType(v, p) == IF MatchesType(v.dims, p) THEN Ok(v) ELSE Panic

\* Row, column and diagonal are defined for two dimensions only; the library
\* reshapes to the (same) shape first, which normalises strides.
Same(v) == Reshape(v, v.dims).v
Row(v, i) == IF Rank(v) # 2 THEN Panic ELSE ViewOp(Same(v), << <<0, i, 0, 0>>, <<1, 0, 0, 0>> >>)
Col(v, i) == IF Rank(v) # 2 THEN Panic ELSE ViewOp(Same(v), << <<1, 0, 0, 0>>, <<0, i, 0, 0>> >>)
DiagOf(v, n) == IF Rank(v) # 2 THEN Panic ELSE Diag(Same(v), n)

----------------------------------------------------------------------------
Apply(v, o) ==
    CASE o.o = "at" -> AxisAt(v, 0, o.a[1][1])
      [] o.o = "axis_at" -> AxisAt(v, o.a[1][1], o.a[1][2])
      [] o.o = "row" -> Row(v, o.a[1][1])
      [] o.o = "col" -> Col(v, o.a[1][1])
      [] o.o = "diag" -> DiagOf(v, o.a[1][1])
      [] o.o = "split" -> Split(v, o.a[1][1], o.a[1][2], o.a[1][3])
      [] o.o = "view" -> ViewOp(v, o.a)
      [] o.o = "reshape" -> Reshape(v, o.a[1])
      [] o.o = "reshapec" -> IF MatchesType(o.a[2], o.a[1])
                             THEN Reshape(v, o.a[2]) ELSE Panic
      [] o.o = "flatten" -> Flatten(v)
      [] o.o = "permute" -> Permute(v, o.a[1])
      [] o.o = "reorder" -> Reorder(v)
      [] o.o = "dense" -> RemapDense(v)
      [] o.o = "remapc" -> RemapType(v, o.a[1])

\* Element access: expected cell, or -1 for a panic.
IndexAt(v, ix) ==
    IF Len(ix) # Rank(v) THEN -1
    ELSE IF \E i \in DOMAIN ix : ix[i] >= v.dims[i] THEN -1
    ELSE CellAt(v, ix)
LinearAt(v, k) == IF k >= Size(v.dims) THEN -1 ELSE v.cells[k + 1]
\* range lo..hi of the row-major sequence (dense views): cells, or <<-1>>
RangeAt(v, lo, hi) == IF lo > hi \/ hi > Size(v.dims) THEN <<-1>> ELSE SubSeq(v.cells, lo + 1, hi)
=============================================================================
