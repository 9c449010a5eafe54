------------------------------ MODULE KeyDerive ------------------------------
(***************************************************************************)
(* The composite key object and the key derived from it.  A part is <<>>   *)
(* (absent) or 32 bytes.                                                   *)
(***************************************************************************)
EXTENDS Sha256, Aes, Base64


-----------------------------------------------------------------------------
(* Key files: [form |-> "missing"], [form |-> "xml", data |-> text of       *)
(* KeyFile/Key/Data], [form |-> "raw", bytes |-> ...].  The 32 bytes, or    *)
(* <<>> if the file must be refused.                                        *)
HexDigit(x) == IF x \in 48..57 THEN x - 48 ELSE IF x \in 65..70 THEN x - 55 ELSE IF x \in 97..102 THEN x - 87 ELSE -1
FileKey(f) ==
    CASE f.form = "missing" -> <<>>
      [] f.form = "xml" -> IF WellFormed(f.data) /\ Canonical(f.data) /\ Len(Decode(f.data)) = 32 THEN Decode(f.data) ELSE <<>>
      [] f.form = "raw" -> IF Len(f.bytes) = 64 /\ \A i \in 1..64 : HexDigit(f.bytes[i]) >= 0
                           THEN [i \in 1..32 |-> HexDigit(f.bytes[2 * i - 1]) * 16 + HexDigit(f.bytes[2 * i])] ELSE <<>>

-----------------------------------------------------------------------------
NoParts == [pw |-> <<>>, kf |-> <<>>]
WithPassword(key, text) == [key EXCEPT !.pw = Sha256(text)]
WithKeyFile(key, f) == IF FileKey(f) = <<>> THEN key ELSE [key EXCEPT !.kf = FileKey(f)]

Combined(key, mode) == IF mode = "kdbx" \/ (key.pw # <<>> /\ key.kf # <<>>) THEN Sha256(key.pw \o key.kf)
                       ELSE key.pw \o key.kf
Rounds(ks, x, n) == FoldLeft(LAMBDA y, i : AesEnc(ks, y), x, [i \in 1..n |-> i])
Derived(key, seed, n, mode) ==
    LET k == TLCEval(Combined(key, mode))
        ks == TLCEval(AesKeys(seed))
    IN Sha256(Rounds(ks, SubSeq(k, 1, 16), n) \o Rounds(ks, SubSeq(k, 17, 32), n))
=============================================================================
