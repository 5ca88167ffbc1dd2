------------------------------ MODULE KindGen ------------------------------
(***************************************************************************)
(* Every operation whose result type depends on the operand's type, on     *)
(* arrays of every rank with constant dimensions in every position.  Also  *)
(* the laws of shapes and mappings as values.                              *)
(***************************************************************************)
EXTENDS Kinds, Json

CONSTANTS Full6,    \* six dimensions; an array of rank r has the last r
          Laws,     \* shapes whose values are compared
          Types     \* types for making shapes of Laws

VARIABLES k, d, last
vars == <<k, d, last>>
None == [op |-> "none"]

Dims(r) == SubSeq(Full6, 7 - r, 6)
Pats(r) == LET s == Dims(r) IN
    {s, KDyn(s), AnyRank} \cup {[KDyn(s) EXCEPT ![i] = s[i]] : i \in 1..r} \cup {[s EXCEPT ![i] = -1] : i \in {1, r} \cap 1..r}
\* zip is done with fewer types
Alt(r, x) == [i \in 1..r |-> IF (7 - r + i) % 2 = x THEN Dims(r)[i] ELSE -1]
ZipPats(r) == {Alt(r, 0), Alt(r, 1), AnyRank}

Say(rec) == PrintT("EDGE " \o ToJson(rec)) /\ last' = rec /\ UNCHANGED <<k, d>>
Make(rk, v) == [rk |-> rk, d |-> v.dims, s |-> v.str, f |-> v.off]

Hows(a) == {"const", "dyn"} \cup (IF a = Len(d) - 1 THEN {"rows"} ELSE {}) \cup (IF a = Len(d) - 2 THEN {"cols"} ELSE {})
Sub(i) == AxisAt(Base(d), i[1], i[2]).v

AxisOps ==
    \E a \in 0..Len(d) - 1 : \E how \in Hows(a) :
    \/ \E i \in {0, d[a + 1] - 1} : i < d[a + 1] /\ i >= 0 /\
          Say([op |-> "axis_at", k |-> k, b |-> d, a |-> a, how |-> how, i |-> i] @@ Make(KRemove(k, a, how), AxisAt(Base(d), a, i).v))
    \/ \E m \in {d[a + 1] \div 2} : \E h \in {0, 1} :
          Say([op |-> "split", k |-> k, b |-> d, a |-> a, how |-> how, i |-> m, h |-> h]
              @@ Make(KResize(k, a, how), Split(Base(d), a, m, h).v))
    \/ LET it == [j \in 1..d[a + 1] |-> AxisAt(Base(d), a, j - 1).v] IN
       d[a + 1] > 0 /\
          Say([op |-> "axis", k |-> k, b |-> d, a |-> a, how |-> how, rk |-> <<KAlong(k, a, how)>>, d |-> <<d[a + 1]>>,
               ik |-> KRemove(k, a, how), id |-> RemoveAt1(d, a + 1), is |-> it[1].str, fs |-> [j \in DOMAIN it |-> it[j].off]])
    \/ LET r == RemoveAt1(d, a + 1)
           st == RemoveAt1(DenseStr(d), a + 1)
       IN Size(d) > 0 /\
          Say([op |-> "lanes", k |-> k, b |-> d, a |-> a, how |-> how, rk |-> KRemove(k, a, how), d |-> r,
               ik |-> <<KAlong(k, a, how)>>, id |-> <<d[a + 1]>>, is |-> <<DenseStr(d)[a + 1]>>,
               fs |-> [j \in 1..Size(r) |-> Dot(Unlin(r, j - 1), st)]])

\* some permutations of each rank, the same as in the harness
Rot(r, n) == [i \in 1..r |-> (i - 1 + n) % r]
Swap(r) == [i \in 1..r |-> IF i = 1 THEN 1 ELSE IF i = 2 THEN 0 ELSE i - 1]
Tens == IF Len(d) < 2 THEN {Rot(Len(d), 0)} ELSE {Rot(Len(d), 0), Rot(Len(d), 1), Rot(Len(d), 2), Swap(Len(d)), Rev(Rot(Len(d), 0))}
TransOps ==
    \/ Say([op |-> "reorder", k |-> k, b |-> d] @@ Make(KRev(k), Reorder(Base(d)).v))
    \/ \E p \in Tens : \E how \in {"const", "dyn"} : Len(d) > 0 /\
          Say([op |-> "permute", k |-> k, b |-> d, p |-> p, how |-> how] @@ Make(KPermute(k, p, how), Permute(Base(d), p).v))
    \/ \E t \in {k, KDyn(k), AnyRank} : Say([op |-> "remap", k |-> k, b |-> d, t |-> t] @@ Make(t, Base(d)))

FullR == <<1, 0, 0, 0>>
Arg(n, x) == CASE x = "index" -> <<0, n - 1, 0, 0>> [] x = "range" -> <<2, 0, n, 0>> [] x = "step" -> <<3, 0, n, -1>> [] x = "full" -> FullR
ViewOps ==
    k # AnyRank /\ Size(d) > 0 /\ Len(d) > 0 /\
    \E i \in 1..Len(d) : \E x \in {"index", "range", "step", "full"} : \E y \in {"full", "index"} :
       LET args == [j \in 1..Len(d) |-> IF j = i THEN Arg(d[j], x) ELSE IF j = Len(d) THEN Arg(d[j], y) ELSE FullR]
       IN (x = "full" => i = 1) /\
          Say([op |-> "view", k |-> k, b |-> d, i |-> i - 1, x |-> x, y |-> y] @@ Make(KView(k, args), ViewOp(Base(d), args).v))

\* types alone
TypeOps == k # AnyRank /\
    Say([op |-> "type", k |-> k, b |-> d, head |-> <<KHead(k)>>, tail |-> KTail(k), rev |-> KRev(k), dyn |-> KDyn(k),
         pre |-> KPrepend(k, -1), pre7 |-> KPrepend(k, 7)])

\* arrays of two types zipped: element j of the longer one meets element j mod n of the other
ZipOps == \E r \in 0..6 : \E t \in ZipPats(r) : k \in ZipPats(Len(d)) /\
    LET e == Dims(r)
        big == IF Len(d) > r THEN d ELSE e
    IN Say([op |-> "zip", k |-> k, b |-> d, t |-> t, e |-> e, rk |-> KZip(k, t), d |-> big])

\* -------------------------------------------------------------- shape values
RECURSIVE Lex(_, _)
Lex(a, b) == IF a = <<>> /\ b = <<>> THEN 0
             ELSE IF a = <<>> THEN -1 ELSE IF b = <<>> THEN 1
             ELSE IF Head(a) # Head(b) THEN (IF Head(a) < Head(b) THEN -1 ELSE 1) ELSE Lex(Tail(a), Tail(b))
Shapes ==
    \/ \E t \in Types : \E a \in Laws :
         Say([op |-> "make", t |-> t, a |-> a, res |-> IF Fits(a, t) THEN "yes" ELSE "no", n |-> Size(a), s |-> DenseStr(a)])
    \/ \E t \in Types : \E a \in {x \in Laws : Fits(x, t)} : \E b \in {x \in Laws : Fits(x, t)} :
         Say([op |-> "pair", t |-> t, a |-> a, b |-> b, cmp |-> Lex(a, b)])

Init == \/ \E r \in 0..6 : d = Dims(r) /\ k \in Pats(r) \cup ZipPats(r) /\ last = None
        \/ d = <<>> /\ k = <<-9>> /\ last = None
Next == /\ last = None
        /\ IF k = <<-9>> THEN Shapes ELSE AxisOps \/ TransOps \/ ViewOps \/ TypeOps \/ ZipOps
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- properties
Has(x) == x \in DOMAIN last
\* the type of a result admits its shape
Sound == /\ (last # None /\ Has("rk")) => Fits(last.d, last.rk)
         /\ (last # None /\ Has("ik")) => Fits(last.id, last.ik)
\* a zip of types keeps every constant, whichever side it comes from
Keeps == last # None /\ last.op = "zip" /\ last.rk # AnyRank =>
    \A i \in 0..Len(last.d) - 1 :
        LET at(x) == IF x # AnyRank /\ i < Len(x) THEN x[Len(x) - i] ELSE -1
        IN (last.rk)[Len(last.d) - i] = -1 <=> at(last.k) = -1 /\ at(last.t) = -1
\* order and equality of shape values
Order == last # None /\ last.op = "pair" => (last.cmp = 0 <=> last.a = last.b) /\ Lex(last.b, last.a) = -last.cmp
=============================================================================
