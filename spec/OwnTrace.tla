------------------------------ MODULE OwnTrace ------------------------------
(***************************************************************************)
(* Recorded histories of two owning arrays: every recorded operation must  *)
(* be explained by Own.tla, and every element must be in exactly one place *)
(* at every point.  The recorder reports, after each operation, what both  *)
(* arrays contain (with element identities), the elements handed out, the  *)
(* elements dropped meanwhile, and whether a panic was injected into user  *)
(* code or into a destructor.                                              *)
(***************************************************************************)
EXTENDS Own, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, a, b, lost

MatchE(w, g) == /\ Len(w) = Len(g)
                /\ \A k \in 1..Len(w) : /\ w[k][1] = 0 \/ w[k][1] = g[k][1]
                                        /\ w[k][2] = -1 \/ w[k][2] = g[k][2]
Match(w, g) == /\ w.p = g.p
               /\ w.p = 1 => /\ w.d = AnyShape \/ w.d = g.d
                             /\ MatchE(w.e, g.e)

\* present, with as many elements as the shape says
Sound(g) == g.p = 0 \/ Len(g.e) = Size(g.d)

Normal(ev, q) ==
    /\ ev.r = q.r
    /\ IF "a" \in q.f THEN ev.a.p = 1 ELSE Match(q.a, ev.a)
    /\ IF "b" \in q.f THEN ev.b.p = 1 ELSE Match(q.b, ev.b)
    /\ MatchE(q.out, ev.out)
    /\ (ev.cap[2] >= 0 /\ q.a.p = 1 /\ "a" \notin q.f) =>
         /\ ev.cap[2] >= CapLo(ev.op, q.a, ev.cap[1], q.r)
         /\ CapHi(ev.op, q.a, ev.cap[1], q.r) >= 0 => ev.cap[2] <= CapHi(ev.op, q.a, ev.cap[1], q.r)

\* user code panicked: the operation fails, operands it only reads are unchanged
Faulted(ev) ==
    LET x == Exposed(ev.op)
    IN /\ ev.r = "panic"
       /\ IF "xa" \in x THEN ev.a.p = 0 ELSE IF "a" \in x THEN ev.a.p = 1 ELSE ev.a = a
       /\ IF "xb" \in x THEN ev.b.p = 0 ELSE IF "b" \in x THEN ev.b.p = 1 ELSE ev.b = b

\* a destructor panicked: the operation fails; elements may be lost, but none is destroyed twice
Failed(ev) == ev.r = "panic"

IdsOf(x) == IF x.p = 0 THEN {} ELSE Ids(x.e)

Conserved(ev, leak) ==
    LET pool == IdsOf(a) \cup IdsOf(b) \cup (ev.born[1]..ev.born[2])
        kept == ev.a.e \o ev.b.e \o ev.out
        dead == {ev.dead[k] : k \in 1..Len(ev.dead)}
    IN /\ ev.errs = <<>>
       /\ Distinct(kept)
       /\ Ids(kept) \subseteq pool
       /\ Ids(kept) \cap dead = {}
       /\ dead \subseteq pool
       /\ leak \/ Ids(kept) \cup dead = pool

Step == LET ev == Trace[l + 1]
        IN /\ l < Len(Trace)
           /\ l' = l + 1
           /\ CASE ev.e = "base" ->
                     /\ Sound(ev.a) /\ a' = ev.a /\ b' = Absent /\ lost' = {}
                [] ev.e = "op" ->
                     LET q == Expect(ev.op, a, b, ev.dyn, FALSE)
                         leak == ev.failed \/ (~ev.fault /\ q.leak)
                         dead == {ev.dead[k] : k \in 1..Len(ev.dead)}
                     IN /\ IF ev.failed THEN Failed(ev) ELSE IF ev.fault THEN Faulted(ev) ELSE Normal(ev, q)
                        /\ Sound(ev.a) /\ Sound(ev.b)
                        /\ Conserved(ev, leak)
                        /\ a' = ev.a /\ b' = ev.b
                        /\ lost' = IF leak THEN lost \cup ((IdsOf(a) \cup IdsOf(b) \cup (ev.born[1]..ev.born[2]))
                                                           \ (Ids(ev.a.e \o ev.b.e \o ev.out) \cup dead))
                                   ELSE lost
                [] ev.e = "end" ->
                     \* once everything is dropped nothing is left but what the user leaked
                     /\ ev.errs = <<>>
                     /\ {ev.after[k] : k \in 1..Len(ev.after)} = lost
                     /\ a' = Absent /\ b' = Absent /\ lost' = {}

Init == l = 0 /\ a = Absent /\ b = Absent /\ lost = {}
Next == Step
Spec == Init /\ [][Next]_<<l, a, b, lost>>

Done == PrintT("REACHED " \o ToString(TLCGet("stats").diameter) \o " OF " \o ToString(Len(Trace) + 1))
=============================================================================
