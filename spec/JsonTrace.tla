----------------------------- MODULE JsonTrace -------------------------------
(* Recorded dumps of groups and entries, and the questions about entries.   *)
EXTENDS TraceBase
J == INSTANCE JsonDump
Dump(e) ==
    LET w == IF e.t = "group" THEN J!Group(e.zone, e.v) ELSE J!Entry(e.zone, e.v)
        v == J!Value(e.text)
    IN /\ Eq("outcome", e.out, "ok")
       /\ (e.utf8 = "true" => /\ Chk("syntax", v # J!Bad, [at |-> e.at])
                              /\ Chk("content", J!Says(v, w), [at |-> e.at, got |-> v, want |-> w]))
Ask(e) ==
    IF e.t = "group" THEN Chk("has non-meta entries", e.v = (IF \E i \in DOMAIN e.o.entries : ~J!IsMeta(e.o.entries[i]) THEN "true" ELSE "false"), [at |-> e.at])
    ELSE /\ Chk("is meta entry", e.v = (IF J!IsMeta(e.o) THEN "true" ELSE "false"), [at |-> e.at])
         /\ Chk("has attachment", e.att = (IF e.o.att # <<>> THEN "true" ELSE "false"), [at |-> e.at])
         /\ Chk("has auto-type settings", e.auto = e.plainauto, [at |-> e.at])
Init == Start
Next == More /\ Advance /\ (IF Ev[l].e = "dump" THEN Dump(Ev[l]) ELSE Ask(Ev[l]))
=============================================================================
