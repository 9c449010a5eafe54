------------------------------ MODULE GzipTrace ------------------------------
(***************************************************************************)
(* Recorded writes and reads of gzip streams; large contents as digests.   *)
(***************************************************************************)
EXTENDS TraceBase, Gzip

Dead == {"crash", "hang", "other", "null"}
Write(e) == /\ Eq("write", e.out, "ok")
            /\ Eq("stream means", Member(e.bytes), [end |-> "ok", data |-> e.data, rest |-> 0])
Full(e) == \/ e.out \notin Dead \cup {"ok"}
           \/ e.out = "ok" /\ Write(e)
           \/ Chk("failure to write not reported", FALSE, [out |-> e.out, room |-> e.room])
ReadIt(e) == LET m == Member(e.bytes) IN
    Chk("read", IF m.end = "ok" /\ m.rest = 0 THEN e.out = "ok" /\ e.data = m.data
                ELSE IF m.end = "ok" THEN e.out \notin Dead /\ (e.out = "ok" => e.data = m.data)
                ELSE e.out \notin Dead \cup {"ok"},
        [out |-> e.out, got |-> e.data, want |-> m])
(* Large: contents as digests; whole says whether the stream is complete.   *)
Large(e) == IF e.whole = "true" THEN Eq("large " \o e.what, [out |-> e.out, got |-> e.got], [out |-> "ok", got |-> e.want])
            ELSE Chk("incomplete stream accepted", e.out \notin Dead \cup {"ok"}, [out |-> e.out, what |-> e.what])

Init == Start
Next == /\ More /\ Advance
        /\ LET e == Ev[l] IN CASE e.e = "write" -> Write(e) [] e.e = "read" -> ReadIt(e) [] e.e = "full" -> Full(e) [] e.e = "large" -> Large(e)
=============================================================================
