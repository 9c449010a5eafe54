-------------------------------- MODULE CbcGen --------------------------------
(***************************************************************************)
(* Every message and every would-be ciphertext over a small alphabet with  *)
(* a small block: decryption inverts encryption, and what decryption       *)
(* accepts is exactly what encryption makes (so every other text, however  *)
(* it ends, is refused).                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Max
VARIABLES kind, text, iv
Byte == 0..3
Swap(k, x) == [i \in 1..2 |-> (x[3 - i] + k + i) % 4]
Back(k, y) == [i \in 1..2 |-> (y[3 - i] + 8 - k - (3 - i)) % 4]
C == INSTANCE Cbc WITH B <- 2, E <- Swap, D <- Back
Texts == UNION {[1..n -> Byte] : n \in 0..Max}
vars == <<kind, text, iv>>
Init == /\ kind \in {"plain", "cipher"} /\ text \in Texts /\ iv \in {<<0, 0>>, <<1, 3>>, <<2, 2>>}
Next == UNCHANGED vars
Inverse2 == kind = "plain" => \A k \in 0..1 : C!CbcDec(k, iv, C!CbcEnc(k, iv, text)) = [ok |-> TRUE, data |-> text]
Exact == kind = "cipher" => \A k \in 0..1 : LET d == C!CbcDec(k, iv, text) IN d.ok => C!CbcEnc(k, iv, d.data) = text
Length == kind = "plain" => LET n == Len(C!CbcEnc(0, iv, text)) IN n % 2 = 0 /\ n - Len(text) \in 1..2
Count == \* as many valid texts of a length as there are messages of the two lengths leading to it
    kind = "plain" /\ text = <<>> => LET ok == {t \in [1..4 -> Byte] : C!CbcDec(1, iv, t).ok} IN Cardinality(ok) = 4 * 4 + 4 * 4 * 4
=============================================================================
