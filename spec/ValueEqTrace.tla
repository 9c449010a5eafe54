---------------------------- MODULE ValueEqTrace ----------------------------
(* Recorded comparisons of objects: ==, != and both the other way round.   *)
EXTENDS TraceBase
V == INSTANCE ValueEq
Compare(e) ==
    LET w == V!Equal(e.t, e.x, e.y) IN
    /\ Chk("equality", e.out = "ok" /\ (w # "open" => e.eq = w), [out |-> e.out, t |-> e.t, at |-> e.at, got |-> e.eq, want |-> w])
    /\ Chk("symmetry and negation", e.eqr = e.eq /\ e.ne # e.eq /\ e.ner = e.ne,
           [t |-> e.t, at |-> e.at, eq |-> e.eq, ne |-> e.ne, eqr |-> e.eqr, ner |-> e.ner])
Init == Start
Next == More /\ Advance /\ Compare(Ev[l])
=============================================================================
