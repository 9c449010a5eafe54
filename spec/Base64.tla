------------------------------- MODULE Base64 -------------------------------
(***************************************************************************)
(* Base64 (RFC 4648): bytes are 0..255, text is a sequence of character    *)
(* codes 0..255.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

Alphabet == [i \in 0..63 |-> IF i < 26 THEN 65 + i ELSE IF i < 52 THEN 97 + i - 26 ELSE IF i < 62 THEN 48 + i - 52
                             ELSE IF i = 62 THEN 43 ELSE 47]
Value == TLCEval([ch \in 0..255 |-> IF \E i \in 0..63 : Alphabet[i] = ch THEN CHOOSE i \in 0..63 : Alphabet[i] = ch ELSE -1])
Pad == 61
Space == {9, 10, 11, 12, 13, 32}

RECURSIVE Encode(_)
Encode(b) ==
    LET n == Len(b) IN
    IF n = 0 THEN <<>>
    ELSE IF n = 1 THEN <<Alphabet[b[1] \div 4], Alphabet[(b[1] % 4) * 16], Pad, Pad>>
    ELSE IF n = 2 THEN <<Alphabet[b[1] \div 4], Alphabet[(b[1] % 4) * 16 + b[2] \div 16], Alphabet[(b[2] % 16) * 4], Pad>>
    ELSE <<Alphabet[b[1] \div 4], Alphabet[(b[1] % 4) * 16 + b[2] \div 16], Alphabet[(b[2] % 16) * 4 + b[3] \div 64], Alphabet[b[3] % 64]>>
         \o Encode(SubSeq(b, 4, n))

Squeeze(t) == SelectSeq(t, LAMBDA ch : ch \notin Space)
(* Number of padding characters a well-formed text of n characters ends with *)
Pads(t) == LET n == Len(t) IN
    IF n > 0 /\ t[n] = Pad THEN IF t[n - 1] = Pad THEN 2 ELSE 1 ELSE 0
WellFormed(u) ==
    LET t == Squeeze(u)
        n == Len(t)
    IN n % 4 = 0 /\ \A i \in 1..(n - Pads(t)) : Value[t[i]] >= 0
(* Bits of the last character that carry no data should be zero; a decoder  *)
(* may insist on it (RFC 4648, 3.5).                                        *)
Canonical(u) == LET t == Squeeze(u)
                    n == Len(t)
                    p == Pads(t)
                IN p = 0 \/ (p = 1 /\ Value[t[n - 1]] % 4 = 0) \/ (p = 2 /\ Value[t[n - 2]] % 16 = 0)
RECURSIVE Groups(_)
Groups(t) ==
    IF t = <<>> THEN <<>>
    ELSE LET a == Value[t[1]]
             b == Value[t[2]]
             c == IF t[3] = Pad THEN 0 ELSE Value[t[3]]
             d == IF t[4] = Pad THEN 0 ELSE Value[t[4]]
             x == a * 4 + b \div 16
             y == (b % 16) * 16 + c \div 4
             z == (c % 4) * 64 + d
         IN (IF t[3] = Pad THEN <<x>> ELSE IF t[4] = Pad THEN <<x, y>> ELSE <<x, y, z>>) \o Groups(SubSeq(t, 5, Len(t)))
Decode(u) == Groups(Squeeze(u))       \* of a well-formed text
=============================================================================
