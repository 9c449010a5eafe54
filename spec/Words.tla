-------------------------------- MODULE Words --------------------------------
(***************************************************************************)
(* 32-bit words as pairs <<high, low>> of 16-bit numbers, and bytes.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

XorB(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] ^^ b[i]])

XorW(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2]>>
AndW(x, y) == <<x[1] & y[1], x[2] & y[2]>>
NotW(x) == <<65535 - x[1], 65535 - x[2]>>
AddW(x, y) == LET l == x[2] + y[2]
                  h == x[1] + y[1] + l \div 65536
              IN <<h % 65536, l % 65536>>
Pow2 == [i \in 0..16 |-> 2 ^ i]
RotR(x, n) == LET y == IF n >= 16 THEN <<x[2], x[1]>> ELSE x
                  k == n % 16
                  p == Pow2[k]
                  q == Pow2[16 - k]
              IN <<y[1] \div p + (y[2] % p) * q, y[2] \div p + (y[1] % p) * q>>
RotL(x, n) == RotR(x, 32 - n)
ShrW(x, n) == LET p == Pow2[n]      \* n < 16
                  q == Pow2[16 - n]
              IN <<x[1] \div p, x[2] \div p + (x[1] % p) * q>>

BeWord(b, at) == <<b[at] * 256 + b[at + 1], b[at + 2] * 256 + b[at + 3]>>
LeWord(b, at) == <<b[at + 3] * 256 + b[at + 2], b[at + 1] * 256 + b[at]>>
BeBytes(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>
LeBytes(w) == <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>
FlattenBe(ws) == FlattenSeq([i \in 1..Len(ws) |-> BeBytes(ws[i])])
FlattenLe(ws) == FlattenSeq([i \in 1..Len(ws) |-> LeBytes(ws[i])])
Word(n) == <<n \div 65536, n % 65536>>              \* of a TLC integer
=============================================================================
