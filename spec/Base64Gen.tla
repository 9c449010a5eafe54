------------------------------ MODULE Base64Gen ------------------------------
(***************************************************************************)
(* All short byte sequences and texts over small alphabets: the definition *)
(* is consistent, and every text is an input for the library.              *)
(***************************************************************************)
EXTENDS Base64, Json, IOUtils
CONSTANTS MaxBytes, MaxText
VARIABLES b, t
ByteSet == {0, 1, 63, 128, 255}
CharSet == {65, 66, 47, 61, 32, 45}          \* A B / = space -
Init == b = <<>> /\ t = <<>>
Next == \/ t = <<>> /\ Len(b) < MaxBytes /\ (\E x \in ByteSet : b' = Append(b, x)) /\ UNCHANGED t
        \/ b = <<>> /\ Len(t) < MaxText /\ (\E x \in CharSet : t' = Append(t, x)) /\ UNCHANGED b
DecodesBack == LET e == Encode(b) IN WellFormed(e) /\ Canonical(e) /\ Decode(e) = b /\ Len(e) = 4 * ((Len(b) + 2) \div 3)
BackAgain == WellFormed(t) /\ Canonical(t) => Encode(Decode(t)) = Squeeze(t)
Emit == ("EMIT" \in DOMAIN IOEnv /\ t # <<>>) => PrintT("@T " \o ToJson(t))
=============================================================================
