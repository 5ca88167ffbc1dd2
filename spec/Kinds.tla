------------------------------- MODULE Kinds -------------------------------
(***************************************************************************)
(* Shape types.  A type of static rank is a sequence with -1 for a dynamic *)
(* dimension and n for one of constant size n; AnyRank is dynamic rank.    *)
(* Each operation on arrays has an operation on types; it must agree with  *)
(* what happens to the shape (Fits), and loses no constant it could keep.  *)
(***************************************************************************)
EXTENDS Views

AnyRank == <<-2>>
MaxRank == 6
Fits(d, k) == k = AnyRank \/ (Len(k) = Len(d) /\ \A i \in DOMAIN k : k[i] = -1 \/ k[i] = d[i])

KDyn(k) == IF k = AnyRank THEN k ELSE [i \in DOMAIN k |-> -1]
KHead(k) == IF k = AnyRank \/ k = <<>> THEN -1 ELSE k[1]
KTail(k) == IF k = AnyRank \/ k = <<>> THEN k ELSE Tail(k)
KPrepend(k, x) == IF k = AnyRank \/ Len(k) = MaxRank THEN AnyRank ELSE <<x>> \o k
KRev(k) == IF k = AnyRank THEN k ELSE Rev(k)
KJoin(x, y) == IF x = -1 THEN y ELSE x
RECURSIVE KMerge(_, _)
KMerge(a, b) == IF a = AnyRank THEN a
                ELSE IF a = <<>> THEN b
                ELSE KPrepend(KMerge(Tail(a), KTail(b)), KJoin(a[1], KHead(b)))
\* operands of a zip are aligned at the last dimension
KZip(a, b) == KRev(KMerge(KRev(a), KRev(b)))

\* along axis a (0-based); how says whether the axis is known to the type
KRemove(k, a, how) == IF k = AnyRank THEN k ELSE IF how = "dyn" THEN KDyn(Tail(k)) ELSE RemoveAt1(k, a + 1)
KAlong(k, a, how) == IF k = AnyRank \/ how = "dyn" THEN -1 ELSE k[a + 1]
KResize(k, a, how) == IF k = AnyRank THEN k ELSE IF how = "dyn" THEN KDyn(k) ELSE ReplaceAt1(k, a + 1, -1)
KPermute(k, p, how) == IF k = AnyRank /\ how = "dyn" THEN k
                       ELSE IF k = AnyRank THEN [i \in DOMAIN p |-> -1]
                       ELSE IF how = "dyn" THEN KDyn(k) ELSE [i \in DOMAIN p |-> k[p[i] + 1]]
\* arguments of view(): an index removes the dimension, a full range keeps it, other ranges make it dynamic
KView(k, args) == LET kept == SelectSeq([i \in 1..Len(args) |-> i], LAMBDA i : args[i][1] # 0)
                  IN [j \in 1..Len(kept) |-> IF args[kept[j]][1] = 1 THEN k[kept[j]] ELSE -1]
=============================================================================
