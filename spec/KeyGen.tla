-------------------------------- MODULE KeyGen --------------------------------
(***************************************************************************)
(* Every short history of a key object: passwords a, b, readable key files *)
(* x, y and unusable ones.  Independent check of the derivation's input:   *)
(* it depends on the last setting of each part only.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT Steps
VARIABLES ops, pw, kf
Init == ops = <<>> /\ pw = "none" /\ kf = "none"
SetPw(p) == ops' = Append(ops, <<"pw", p>>) /\ pw' = p /\ UNCHANGED kf
SetKf(f) == ops' = Append(ops, <<"kf", f>>) /\ kf' = (IF f \in {"x", "y"} THEN f ELSE kf) /\ UNCHANGED pw
Next == Len(ops) < Steps /\ ((\E p \in {"a", "b", "empty"} : SetPw(p)) \/ (\E f \in {"x", "y", "missing", "bad", "short"} : SetKf(f)))
LastOf(kind, ok) == LET s == SelectSeq(ops, LAMBDA o : o[1] = kind /\ o[2] \in ok) IN IF s = <<>> THEN "none" ELSE s[Len(s)][2]
LastCounts == pw = LastOf("pw", {"a", "b", "empty"}) /\ kf = LastOf("kf", {"x", "y"})
Emit == ("EMIT" \in DOMAIN IOEnv /\ Len(ops) = Steps) => PrintT("@OPS " \o ToJson(ops))
=============================================================================
