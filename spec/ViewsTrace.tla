----------------------------- MODULE ViewsTrace -----------------------------
(***************************************************************************)
(* Validates an execution recorded from the real library: every logged     *)
(* call must be a transition of Views.  Calls outside Own are not judged;  *)
(* the specification continues from the observed view.                     *)
(***************************************************************************)
EXTENDS Views, Json, IOUtils

CONSTANT Own

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, v

Observed(e) == [dims |-> e.d, cells |-> e.c, off |-> IF e.c = <<>> THEN v.off ELSE e.c[1], str |-> e.s]

SameView(w, e) ==
    /\ w.dims = e.d
    /\ w.cells = e.c
    /\ \A k \in Determined(w) : w.str[k] = e.s[k]
    /\ Empty(w.dims) \/ ((e.s = DenseStr(w.dims) => e.t) /\ (~LooselyDense(w) => ~e.t))

Accepts(r, e) ==
    /\ ~e.m
    /\ CASE r.k = "ok" -> e.k = "ok" /\ SameView(r.v, e)
         [] r.k = "panic" -> e.k = "panic"
         [] r.k = "gap" -> e.k = "panic" \/ SameView(r.v, e)

Init == i = 1 /\ v = Base(<<>>)

Next ==
    /\ i <= Len(Trace)
    /\ i' = i + 1
    /\ LET e == Trace[i]
       IN \/ e.e = "base" /\ v' = Base(e.d)
          \/ /\ e.e = "op"
             /\ e.o.o \in Own => Accepts(Apply(v, e.o), e)
             /\ v' = IF e.k = "ok" THEN Observed(e) ELSE v

Spec == Init /\ [][Next]_<<i, v>>

Done == PrintT("REACHED " \o ToString(TLCGet("stats").diameter) \o " OF " \o ToString(Len(Trace) + 1))
=============================================================================
