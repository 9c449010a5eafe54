------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Frame of the trace specifications of the library's layers: c is the     *)
(* recorded run being checked, l the next event of it.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[c].ev
Say(name, info) == PrintT("@FAIL " \o ToString(c) \o " " \o ToString(l) \o " " \o name \o " " \o ToJson(info))
Chk(name, cond, info) == IF cond THEN TRUE ELSE Say(name, info) /\ FALSE
Eq(name, got, want) == Chk(name, got = want, [got |-> got, want |-> want])
Start == c \in 1..Len(Cases) /\ l = 1
More == l <= Len(Ev)
Advance == l' = l + 1 /\ UNCHANGED c
Accept == l = Len(Ev) + 1 => PrintT("@ACCEPT " \o ToString(c))
=============================================================================
