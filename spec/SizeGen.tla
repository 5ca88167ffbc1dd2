------------------------------ MODULE SizeGen ------------------------------
(***************************************************************************)
(* Requests for arrays of any size.  A shape whose number of elements is   *)
(* not below 2^64 never comes into being: the request panics and leaves    *)
(* its array as it was.  The number of elements is counted without         *)
(* wrapping; sizes are bignums.                                            *)
(***************************************************************************)
EXTENDS Big, TLC, Json, FiniteSets

CONSTANTS Exps,     \* sizes are 2^e for e in Exps,
          Odd,      \* [e, a] for 2^e + a,
          Plain,    \* and small numbers
          Ranks,
          Nested,   \* exponents of the sizes of nested arrays of units
          Starts    \* shapes of the array the request is made on

VARIABLES d, s, last     \* the array's shape, the request being built, what was asked last
vars == <<d, s, last>>

Word == Pow2(64)
Sizes == {Pow2(e) : e \in Exps} \cup {Plus(Pow2(x[1]), Small(x[2])) : x \in Odd} \cup {Small(n) : n \in Plain}
Zero(x) == \E i \in 1..Len(x) : x[i] = <<>>
Whole(x) == Prod([i \in 1..Len(x) |-> IF x[i] = <<>> THEN Small(1) ELSE x[i]])  \* without the zeros
Count(x) == Prod(x)
Have == Prod([i \in 1..Len(d) |-> Small(d[i])])

\* "yes": must succeed, "no": must be refused, "any": a zero hides the overflow (of the length, or of a stride),
\* either is allowed
Fit(x) == IF Zero(x) THEN (IF Lt(Whole(x), Pow2(62)) THEN "yes" ELSE "any")
          ELSE IF Lt(Whole(x), Word) THEN "yes" ELSE "no"
\* elements of 8 bytes: an allocation is below 2^63 bytes; more than 2^12 elements are not asked for
CanHold(x) == IF Zero(x) THEN Fit(x)
              ELSE IF Lt(Count(x), Small(4097)) THEN "yes"
              ELSE IF Lt(Count(x), Pow2(60)) THEN "skip" ELSE "no"

Ask(op, res) == /\ res # "skip"
                /\ PrintT("EDGE " \o ToJson([op |-> op, d |-> d, s |-> s, res |-> res, n |-> Count(s)]))
                /\ last' = [op |-> op, res |-> res]
                /\ d' = IF op = "resize" /\ res = "yes" /\ \A i \in 1..Len(s) : Len(s[i]) <= 1
                        THEN [i \in 1..Len(s) |-> Digit(s[i], 1)] ELSE d
                /\ UNCHANGED s

\* without an array: an expression that would make the elements; a new array;
\* lanes along the first axis of an array [0] \o s; arrays of nothing, whose lengths need no memory, appended to one another
New == \/ Ask("lazy", Fit(s))
       \/ Ask("make", CanHold(s))
       \/ Len(s) = 2 /\ Ask("lanes", Fit(s))
       \/ Len(s) = 2 /\ ~Zero(s) /\ Fit(s) = "yes" /\ Ask("append", IF Lt(Plus(Count(s), Count(s)), Word) THEN "yes" ELSE "no")
\* nested arrays of units converted to arrays: the type system bounds no length there
Nest == \E e \in Nested : s = [i \in 1..Len(e) |-> Pow2(e[i])] /\ Ask("nest", Fit(s))
Resize == Len(s) = Len(d) /\ Ask("resize", CanHold(s))
Reshape == Ask("reshape", IF Fit(s) = "yes" THEN (IF Count(s) = Have THEN "yes" ELSE "no")
                          ELSE IF Have = <<>> THEN Fit(s) ELSE "no")
\* a reshape where dimension k is left open
Infer(k) ==
    LET rest == [i \in 1..Len(s) |-> IF i = k THEN Small(1) ELSE s[i]]
    IN Ask("infer" \o ToString(k),
           IF Zero(rest) THEN "no"                               \* nothing determines the open dimension
           ELSE IF ~Lt(Count(rest), IF Have = <<>> THEN Pow2(62) ELSE Word) THEN (IF Have = <<>> THEN "any" ELSE "no")
           ELSE IF \E q \in 0..24 : Times(Count(rest), Small(q)) = Have THEN "yes" ELSE "no")

Init == /\ \/ d \in Starts \cup {<<>>} /\ s = <<>>
           \/ d = <<>> /\ \E e \in Nested : s = [i \in 1..Len(e) |-> Pow2(e[i])]
        /\ last = [op |-> "none", res |-> "yes"]
Grow == /\ \E r \in Ranks : Len(s) < r
        /\ \E x \in Sizes : s' = Append(s, x)
        /\ UNCHANGED <<d, last>>
Next == /\ last.op = "none"
        /\ \/ Grow
           \/ d = <<>> /\ Nest
           \/ Len(s) \in Ranks /\ (IF d = <<>> THEN New ELSE Resize \/ Reshape \/ \E k \in 1..Len(s) : Infer(k))
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- properties
\* whatever succeeds has a length that is a number below 2^64 (and agrees with the shape)
Bounded == last.op \in {"lazy", "make", "nest", "resize", "reshape"} /\ last.res = "yes" => Lt(Count(s), Word)
\* arithmetic of the model
ASSUME Arith == /\ Times(Pow2(31), Pow2(33)) = Word
         /\ Plus(Times(Small(2), Plus(Pow2(63), Small(3))), <<>>) = Plus(Word, Small(6))
         /\ Lt(Plus(Pow2(63), Small(7)), Word) /\ ~Lt(Word, Word)
Unchanged == [][last'.res = "no" => d' = d]_vars
=============================================================================
