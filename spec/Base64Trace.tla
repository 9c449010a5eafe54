----------------------------- MODULE Base64Trace -----------------------------
EXTENDS TraceBase, Base64

Errors == {"Format", "Io", "Internal", "std:out_of_range", "std:std::out_of_range", "std:bad_alloc"}
Refused(e) == Chk("must be refused", e.out # "ok" /\ e.out \notin {"crash", "hang", "null", "other"}, [out |-> e.out, text |-> e.t, got |-> e.b])
Enc(e) == Eq("encoded", e.t, Encode(e.b))
Dec(e) == IF ~WellFormed(e.t) THEN Refused(e)
          ELSE IF ~Canonical(e.t) /\ e.out = "Format" THEN TRUE
          ELSE Eq("decoded " \o e.out, [out |-> e.out, b |-> e.b], [out |-> "ok", b |-> Decode(e.t)])
(* Into a place of eight bytes: whole, or an error and nothing beyond.      *)
Fixed(e) == /\ Eq("bytes around the destination kept", e.guard, "true")
            /\ IF ~WellFormed(e.t) THEN Refused(e)
               ELSE IF Len(Decode(e.t)) > 8 THEN Refused(e)
               ELSE IF ~Canonical(e.t) /\ e.out = "Format" THEN TRUE
               ELSE LET d == Decode(e.t) IN
                    /\ Eq("decoded in place", [out |-> e.out, b |-> SubSeq(e.b, 1, Len(d))], [out |-> "ok", b |-> d])
                    /\ Eq("rest of the destination", SubSeq(e.b, Len(d) + 1, 8), [i \in 1..(8 - Len(d)) |-> 238])
(* The same through another iterator.                                       *)
Same(e) == Eq("decoding through another iterator", e.same, "true")

Init == Start
Next == /\ More /\ Advance
        /\ LET e == Ev[l] IN CASE e.e = "enc" -> Enc(e) [] e.e = "dec" -> Dec(e) /\ Same(e) [] e.e = "fixed" -> Fixed(e)
=============================================================================
