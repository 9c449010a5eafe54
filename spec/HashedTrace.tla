----------------------------- MODULE HashedTrace -----------------------------
(***************************************************************************)
(* Recorded writes and reads of hashed block streams.  Small streams are   *)
(* recorded byte by byte; of large ones the blocks (parsed elsewhere) and  *)
(* digests of the contents.                                                *)
(***************************************************************************)
EXTENDS TraceBase, Sha256
S == INSTANCE HashedStream WITH Hash <- Sha256, HashSize <- 32

Write(e) == /\ Eq("write", e.out, "ok")
            /\ Eq("stream", e.bytes, S!Stream(e.data, e.bs))
Ends(e, r) == IF r.end = "ok" /\ r.rest = 0 THEN e.out = "ok" /\ e.data = r.data
              ELSE IF r.end = "ok" THEN e.out \notin {"crash", "hang", "other", "null"} /\ (e.out = "ok" => e.data = r.data) /\ IsPrefix(e.data, r.data)
              ELSE e.out \notin {"ok", "crash", "hang", "other", "null"} /\ IsPrefix(e.data, r.data)
ReadIt(e) == LET r == S!Read(e.bytes) IN Chk("read", Ends(e, r), [out |-> e.out, got |-> e.data, want |-> r])
(* Large: blocks as <<index, size, hash kind>>.                             *)
Large(e) ==
    LET n == S!Count(e.size, e.bs) IN
    /\ Eq("write", e.out, "ok")
    /\ Eq("blocks", e.blocks, [k \in 1..(n + 1) |->
            <<k - 1, IF k < n THEN e.bs ELSE IF k = n THEN e.size - (n - 1) * e.bs ELSE 0, IF k <= n THEN "ok" ELSE "zero">>])
    /\ Eq("content", e.got, e.want)
    /\ Eq("rest", e.rest, 0)
LargeRead(e) == Eq("large read", [out |-> e.out, got |-> e.got], [out |-> "ok", got |-> e.want])
(* Damaged: at most the blocks before the damaged one are delivered.        *)
LargeBad(e) == Chk("large damaged", e.out \notin {"ok", "crash", "hang", "other", "null"} /\ e.got = e.want, [out |-> e.out, got |-> e.got, want |-> e.want, place |-> e.place])
(* Writing to a place that takes only some bytes must say so.               *)
Full(e) == IF e.room >= Len(S!Stream(e.data, e.bs)) THEN Write(e)
           ELSE Chk("full", e.out \notin {"ok", "crash", "hang"} /\ IsPrefix(e.bytes, S!Stream(e.data, e.bs)), [out |-> e.out, room |-> e.room])

Init == Start
Next == /\ More /\ Advance
        /\ LET e == Ev[l] IN CASE e.e = "write" -> Write(e) [] e.e = "read" -> ReadIt(e) [] e.e = "large" -> Large(e)
                                [] e.e = "largeread" -> LargeRead(e) [] e.e = "largebad" -> LargeBad(e) [] e.e = "full" -> Full(e)
=============================================================================
