----------------------------- MODULE HashedStream -----------------------------
(***************************************************************************)
(* The hashed block stream: what is written for some data, and what a      *)
(* reader delivers from any sequence of bytes.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS Hash(_), HashSize           \* of a sequence of bytes

Le4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
Num4(b, at) == IF b[at + 3] > 127 THEN -1 ELSE b[at] + 256 * b[at + 1] + 65536 * b[at + 2] + 16777216 * b[at + 3]   \* -1: beyond any size here
ZeroHash == [i \in 1..HashSize |-> 0]
HeadSize == 8 + HashSize

Block(i, d) == Le4(i) \o (IF d = <<>> THEN ZeroHash ELSE Hash(d)) \o Le4(Len(d)) \o d
Count(n, bs) == (n + bs - 1) \div bs
Piece(d, bs, k) == SubSeq(d, (k - 1) * bs + 1, IF k * bs < Len(d) THEN k * bs ELSE Len(d))
Stream(d, bs) == LET n == Count(Len(d), bs) IN FlattenSeq([k \in 1..(n + 1) |-> Block(k - 1, IF k <= n THEN Piece(d, bs, k) ELSE <<>>)])

(* A reader: what the intact leading blocks hold and whether the end was    *)
(* reached; rest: bytes behind the end.                                     *)
RECURSIVE ReadFrom(_, _, _, _)
ReadFrom(b, at, k, got) ==
    LET left == Len(b) - at + 1 IN
    IF left < HeadSize THEN [end |-> "error", data |-> got, rest |-> 0]
    ELSE LET h == SubSeq(b, at + 4, at + 3 + HashSize)
             n == Num4(b, at + 4 + HashSize)
         IN IF Num4(b, at) # k THEN [end |-> "error", data |-> got, rest |-> 0]
            ELSE IF n = 0 THEN [end |-> IF h = ZeroHash THEN "ok" ELSE "error", data |-> got, rest |-> left - HeadSize]
            ELSE IF n < 0 \/ left - HeadSize < n THEN [end |-> "error", data |-> got, rest |-> 0]
            ELSE LET d == TLCEval(SubSeq(b, at + HeadSize, at + HeadSize + n - 1))
                     more == TLCEval(got \o d)
                 IN IF Hash(d) # h THEN [end |-> "error", data |-> got, rest |-> 0]
                    ELSE ReadFrom(b, at + HeadSize + n, k + 1, more)
Read(b) == ReadFrom(b, 1, 0, <<>>)
=============================================================================
