------------------------------- MODULE Writer -------------------------------
(***************************************************************************)
(* Saving through a buffered file.  The writer puts Size bytes into a      *)
(* buffer of Buf bytes, which is handed to the device in calls; each call  *)
(* is answered as the plan says: all of it taken, a part of it, nothing    *)
(* because of an interruption, or refused (now, or from now on).  After    *)
(* the last byte the rest is handed over, and only then does the writer    *)
(* say how it went.  A writer that says "ok" without the last step, or     *)
(* after a refusal, is not honest.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Size, Buf, Calls
VARIABLES plan, rest, put, buf, dev, calls, bad, said
vars == <<plan, rest, put, buf, dev, calls, bad, said>>
Answers == {"all", "part", "intr", "full"}
Init == /\ plan \in UNION {[1..n -> Answers] : n \in 0..Calls} /\ rest \in {"all", "full", "io"}
        /\ put = 0 /\ buf = 0 /\ dev = 0 /\ calls = 0 /\ bad = FALSE /\ said = "no"
Answer == IF calls < Len(plan) THEN plan[calls + 1] ELSE rest
Put == said = "no" /\ ~bad /\ put < Size /\ buf < Buf /\ put' = put + 1 /\ buf' = buf + 1 /\ UNCHANGED <<plan, rest, dev, calls, bad, said>>
Hand == /\ said = "no" /\ ~bad /\ buf > 0 /\ (buf = Buf \/ put = Size)
        /\ calls' = calls + 1
        /\ LET n == CASE Answer = "all" -> buf [] Answer = "part" -> (buf + 1) \div 2 [] OTHER -> 0
           IN dev' = dev + n /\ buf' = buf - n
        /\ bad' = (Answer \in {"full", "io"})
        /\ UNCHANGED <<plan, rest, put, said>>
Say == /\ said = "no" /\ (bad \/ (put = Size /\ buf = 0))
       /\ said' = (IF bad THEN "error" ELSE "ok") /\ UNCHANGED <<plan, rest, put, buf, dev, calls, bad>>
Next == Put \/ Hand \/ Say
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Honest == said = "ok" => dev = Size
NoLoss == dev + buf = put
Reports == said = "error" => \E i \in 1..calls : (IF i <= Len(plan) THEN plan[i] ELSE rest) \in {"full", "io"}
Ends == <>(said # "no")
Emit == (put = 0 /\ calls = 0 /\ "EMIT" \in DOMAIN IOEnv) => PrintT("@PLAN " \o ToJson([plan |-> plan, rest |-> rest]))
=============================================================================
