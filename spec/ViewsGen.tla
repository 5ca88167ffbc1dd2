----------------------------- MODULE ViewsGen -----------------------------
(***************************************************************************)
(* State machine over views: a behaviour starts with a dense array of some *)
(* shape and derives views step by step.  "Thin" operations extend the     *)
(* behaviour, and in every state reached all operations of the focus menu  *)
(* are taken as transitions.  Every transition is emitted as a JSON record *)
(* (base shape, path to the state, operation, expected outcome) that the   *)
(* harness replays on the real library.                                    *)
(***************************************************************************)
EXTENDS Views, Json

CONSTANTS Bases,    \* shapes of the underlying array
          Depth,    \* number of thin steps
          Focus,    \* set of menu names
          Rich      \* 1 small menus, 2 large menus

VARIABLES base, v, hist, thin

vars == <<base, v, hist, thin>>

Full == <<1, 0, 0, 0>>
At(i) == <<0, i, 0, 0>>

OneDim(w, k, A, others) ==
    {[i \in 1..Rank(w) |-> IF i = k THEN a ELSE o] : a \in A, o \in others}

ThinDim(n) ==
    (IF n > 0 THEN {<<2, 1, n, 0>>, <<2, 0, n - 1, 0>>, At(n - 1)} ELSE {})
    \cup (IF n > 1 THEN {<<3, 0, n, 2>>, <<3, 0, n, -1>>} ELSE {})

Perms(n) == {p \in [1..n -> 0..(n - 1)] : \A i, j \in 1..n : p[i] = p[j] => i = j}

\* rotations, exchanges, and sequences that are no permutations
SomePerms(n) ==
    LET near == {i \in 1..n : i < 9 \/ i > n - 3} IN
    {[i \in 1..n |-> (i - 1 + k - 1) % n] : k \in near}
    \cup {[i \in 1..n |-> IF i = a THEN b - 1 ELSE IF i = b THEN a - 1 ELSE i - 1] : a \in near, b \in near}
    \cup {[i \in 1..n |-> IF i = a THEN b - 1 ELSE i - 1] : a \in near, b \in near \cup {n + 1}}
    \cup {[i \in 1..n |-> n - i]} \cup {[i \in 1..n |-> (i - 1) % m] : m \in 1..3} \cup {[i \in 1..n |-> n - 1]}

ThinOps(w) ==
    {[o |-> "view", a |-> a] : a \in UNION {OneDim(w, k, ThinDim(w.dims[k]), {Full}) : k \in 1..Rank(w)}}
    \cup (IF Rank(w) \in 2..3 THEN {[o |-> "permute", a |-> <<p>>] : p \in Perms(Rank(w))} ELSE {})
    \cup (IF Rank(w) > 3 THEN {[o |-> "reorder", a |-> <<>>]} ELSE {})

\* --- selection menu
\* 20000.. stand for values at the limits of the machine word
Huge == {20000, 20001, 20002}
\* positions in 0..m, for large m those at the ends, in the middle and around powers of two
Upto(m) == IF m <= 24 THEN 0..m
           ELSE {i \in {0, 1, 2, m \div 2, m - 3, m - 2, m - 1, m} \cup
                       UNION {{q - 1, q, q + 1} : q \in {8, 16, 32, 64, 128, 256, 512, 1024}} : i <= m}
UptoFew(m) == IF m <= 24 THEN 0..m ELSE {i \in {0, 1, m \div 2, m - 2, m - 1, m, 64, 128, 256} : i <= m}
RangesOf(n) == {<<2, lo, hi, 0>> : lo \in UptoFew(n + 1), hi \in UptoFew(n + 1)}
               \cup {<<2, 0, h, 0>> : h \in Huge} \cup {<<2, h, h, 0>> : h \in Huge} \cup {<<3, h, n, 1>> : h \in Huge}
StepsOf(n) == {<<3, lo, hi, s>> : lo \in 0..Min2(n, 2), hi \in Max2(0, n - 2)..(n + 1), s \in {-3, -2, -1, 0, 1, 2, 3}}
              \cup {<<3, lo, n, s>> : lo \in 0..Min2(n, 1), s \in {-7, 7, -20001, 20001}}
IdxOf(n) == {At(i) : i \in Upto(n + 1) \cup Huge}
DimMenu(n) == RangesOf(n) \cup StepsOf(n) \cup IdxOf(n) \cup {Full}
DimSmall(n) == {Full, <<2, Min2(1, n), n, 0>>, <<3, 0, n, -2>>} \cup (IF n > 0 THEN {At(0)} ELSE {})

RECURSIVE Combos(_, _)
Combos(w, k) ==
    IF k = 0 THEN {<<>>}
    ELSE {Append(s, a) : s \in Combos(w, k - 1), a \in DimSmall(w.dims[k])}

SelectOps(w) ==
    {[o |-> "at", a |-> << <<i>> >>] : i \in Huge \cup Upto(IF Rank(w) = 0 THEN 0 ELSE w.dims[1])}
    \cup {[o |-> "axis_at", a |-> << <<k, i>> >>] : k \in (0..Rank(w)) \cup {20000},
             i \in Huge \cup Upto(Max2(1, FoldLeft(Max2, 0, w.dims)))}
    \cup {[o |-> "row", a |-> << <<i>> >>] : i \in Huge \cup Upto(IF Rank(w) = 0 THEN 0 ELSE w.dims[1])}
    \cup {[o |-> "col", a |-> << <<i>> >>] : i \in Huge \cup Upto(IF Rank(w) < 2 THEN 0 ELSE w.dims[2])}
    \cup {[o |-> "diag", a |-> << <<i>> >>] :
             i \in IF Rank(w) = 2 THEN {-i : i \in Upto(w.dims[1] + 1)} \cup Upto(w.dims[2] + 1) \cup {20001, -20000, -20001} ELSE {0}}
    \cup {[o |-> "split", a |-> << <<k, m, h>> >>] : k \in 0..Rank(w),
             m \in Huge \cup Upto(FoldLeft(Max2, 0, w.dims) + 1), h \in {0, 1}}
    \cup {[o |-> "view", a |-> a] : a \in
             IF Rank(w) \in 1..3
             THEN (UNION {OneDim(w, k, DimMenu(w.dims[k]), {Full}) : k \in 1..Rank(w)})
                  \cup (IF Rank(w) < 3 \/ Rich > 1 THEN Combos(w, Rank(w)) ELSE {})
             ELSE IF Rank(w) > 3
             THEN UNION {OneDim(w, k, ThinDim(w.dims[k]) \cup IdxOf(w.dims[k]), {Full}) : k \in 1..Rank(w)}
                  \cup IF Rank(w) > 4
                       THEN {[i \in 1..Rank(w) |-> IF i = 1 THEN At(0) ELSE IF i = 3 THEN <<2, Min2(1, w.dims[3]), w.dims[3], 0>>
                                                   ELSE IF i = Rank(w) THEN x ELSE Full] : x \in DimSmall(w.dims[Rank(w)]) \ {At(0)}}
                            \cup {[i \in 1..Rank(w) |-> IF i = 1 THEN x ELSE IF i \in {2, 4} THEN At(Max2(0, w.dims[i] - 1)) ELSE Full] :
                                     x \in DimSmall(w.dims[1]) \ {At(0)}}
                       ELSE {}
             ELSE {}}

\* --- transformation menu
RECURSIVE Facts(_, _)
Facts(n, r) ==
    IF r = 0 THEN IF n = 1 THEN {<<>>} ELSE {}
    ELSE IF n = 0
    THEN {f \in [1..r -> {0, 1, 3}] : Prod(f) = 0}
    ELSE UNION {{Append(f, q) : f \in Facts(n \div q, r - 1)} : q \in {q \in 1..n : n % q = 0}}

ReshapeReqs(w) ==
    LET n == Size(w.dims)
        good == UNION {Facts(n, r) : r \in 0..(IF Rich > 1 THEN 4 ELSE 3)}
        bad == UNION {Facts(m, r) : m \in {n + 1, Max2(0, n - 1)}, r \in 0..2}
        inf == {[f EXCEPT ![1] = -1] : f \in UNION {Facts(n, r) : r \in 1..2}}
               \cup {[f EXCEPT ![2] = -1] : f \in UNION {Facts(n, r) : r \in 2..3}}
               \cup { <<-1, -1>>, <<2, -1>>, <<-1, 3>>, <<-1, 0>>, <<20003, 20003>>, <<20002, 2>>, <<20001>> }
               \cup (IF n > 0 THEN { <<-1, 20002>>, <<20003, -1, 20003>> } ELSE {})
    IN good \cup bad \cup inf

TypePats == { <<-2>>, <<>>, <<-1>>, <<3>>, <<2>>, <<-1, -1>>, <<2, 3>>, <<-1, 3>>, <<2, -1>>, <<3, 2>>,
              <<-1, -1, -1>>, <<2, -1, 2>>, <<-1, 3, -1>>, <<2, 3, 2>>, <<-1, -1, -1, -1>> }

\* a shape value of a static type is built from dimensions of matching rank
PatDims(w, p) ==
    IF p = <<-2>> THEN {w.dims}
    ELSE {[i \in DOMAIN p |-> IF p[i] = -1 THEN f[i] ELSE p[i]] :
             f \in IF Len(p) <= 3 THEN Facts(Size(w.dims), Len(p)) ELSE {Zeros(Len(p))}}

TransOps(w) ==
    {[o |-> "reshape", a |-> <<a>>] : a \in ReshapeReqs(w)}
    \cup {[o |-> "flatten", a |-> <<>>], [o |-> "reorder", a |-> <<>>], [o |-> "dense", a |-> <<>>]}
    \cup {[o |-> "permute", a |-> <<p>>] : p \in
            (IF Rank(w) <= 3 THEN [1..Rank(w) -> 0..Rank(w)] ELSE IF Rank(w) <= 6 THEN Perms(Rank(w)) ELSE SomePerms(Rank(w)))
            \cup { <<0>>, <<0, 1>>, <<1, 0, 2>> } }
    \cup {[o |-> "remapc", a |-> <<p>>] : p \in TypePats}
    \cup UNION {{[o |-> "reshapec", a |-> <<p, d>>] : d \in PatDims(w, p)} : p \in TypePats}

MutOps(w) ==
    ThinOps(w)
    \cup {[o |-> "axis_at", a |-> << <<k, 0>> >>] : k \in 0..(Rank(w) - 1)}
    \cup {[o |-> "split", a |-> << <<k, 1, h>> >>] : k \in 0..(Rank(w) - 1), h \in {0, 1}}
    \cup {[o |-> "flatten", a |-> <<>>], [o |-> "reorder", a |-> <<>>], [o |-> "dense", a |-> <<>>]}
    \cup (IF Rank(w) = 2 THEN {[o |-> "diag", a |-> << <<i>> >>] : i \in -1..1} \cup {[o |-> "row", a |-> << <<0>> >>], [o |-> "col", a |-> << <<0>> >>]} ELSE {})

Menu(w) == (IF "select" \in Focus THEN SelectOps(w) ELSE {})
           \cup (IF "trans" \in Focus THEN TransOps(w) ELSE {})
           \cup (IF "mut" \in Focus THEN MutOps(w) ELSE {})

\* --- element access probes
ProbesOf(w) ==
    LET inb == Indices(w.dims)
        oob == [k \in 1..Rank(w) |-> [i \in 1..Rank(w) |-> IF i = k THEN w.dims[i] ELSE 0]]
        oob2 == [k \in 1..Rank(w) |-> [i \in 1..Rank(w) |-> IF i = k THEN w.dims[i] + 3 ELSE Max2(0, w.dims[i] - 1)]]
        big == IF Rank(w) = 0 THEN <<>> ELSE
               [k \in 1..Rank(w) |-> [i \in 1..Rank(w) |-> IF i = k THEN 20000 ELSE 0]] \o
               << [i \in 1..Rank(w) |-> 20000], [i \in 1..Rank(w) |-> 20002] >>
        wrong == << Zeros(Rank(w) + 1) >> \o (IF Rank(w) > 0 THEN << Zeros(Rank(w) - 1) >> ELSE <<>>)
    IN inb \o oob \o oob2 \o big \o wrong
RangeProbes(w) ==
    LET n == Size(w.dims)
    IN SetToSeq({<<lo, hi>> : lo \in {0, 1, n \div 2, n, n + 1, 20000}, hi \in {0, 1, (n + 1) \div 2, n, n + 1, 20000, 20001}})

EmitProbes ==
    "index" \in Focus =>
      LET p == ProbesOf(v)
          lq == [i \in 1..(Size(v.dims) + 2) |-> i - 1] \o << 20000, 20001, 20002 >>
          r == RangeProbes(v)
      IN PrintT("EDGE " \o ToJson([b |-> base, h |-> hist, o |-> [o |-> "index", a |-> p],
            k |-> "ok", d |-> v.dims, c |-> v.cells, s |-> v.str,
            e |-> [i \in 1..Len(p) |-> IndexAt(v, p[i])],
            lq |-> lq, l |-> [i \in 1..Len(lq) |-> LinearAt(v, lq[i])],
            rq |-> r, re |-> [i \in 1..Len(r) |-> RangeAt(v, r[i][1], r[i][2])]]))

Emit(o, r) ==
    PrintT("EDGE " \o ToJson(
        IF r.k = "panic" THEN [b |-> base, h |-> hist, o |-> o, k |-> r.k]
        ELSE [b |-> base, h |-> hist, o |-> o, k |-> r.k, d |-> r.v.dims, c |-> r.v.cells, f |-> r.v.off, s |-> r.v.str]))

Init == /\ base \in Bases
        /\ v = Base(base)
        /\ hist = <<>>
        /\ thin = TRUE

Take(r, o, th) ==
    /\ IF r.k = "ok"
       THEN /\ v' = r.v
            /\ hist' = Append(hist, [o |-> o.o, a |-> o.a, d |-> r.v.dims, f |-> r.v.off, s |-> r.v.str])
            /\ thin' = th
       ELSE UNCHANGED <<v, hist, thin>>
    /\ UNCHANGED base

\* a transition of the focus menu, emitted for replay
Probe == \E o \in Menu(v) : LET r == Apply(v, o) IN Emit(o, r) /\ Take(r, o, FALSE)
\* a transition that extends the behaviour
Derive == \E o \in ThinOps(v) : Take(Apply(v, o), o, thin)

Next == Probe \/ Derive

Spec == Init /\ [][Next]_vars

Explore == thin /\ Len(hist) <= Depth
\* emitted once per explored state
ProbeConstraint == Explore /\ EmitProbes
StateView == <<base, v, thin>>

\* ------------------------------------------------------------- properties
TypeOK == Len(v.str) = Len(v.dims) /\ Len(v.cells) = Size(v.dims)
Refinement == Refines(v)
Exclusive == Injective(v)
InBase == \A i \in DOMAIN v.cells : v.cells[i] \in 0..(Size(base) - 1)
=============================================================================
