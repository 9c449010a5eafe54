--------------------------------- MODULE Cbc ---------------------------------
(***************************************************************************)
(* Cipher block chaining with PKCS#7 padding over any block cipher.  The   *)
(* state of a run is the chaining block alone.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC
CONSTANTS B,                                       \* block size in bytes
          E(_, _), D(_, _)                         \* key, block
XorC(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] ^^ b[i]])
Padding(n) == LET p == B - (n % B) IN [i \in 1..p |-> p]
BlockOf(s, i) == SubSeq(s, (i - 1) * B + 1, i * B)

(* One step: the chaining block and a block in, the next chaining block and *)
(* a block out.                                                             *)
EncStep(k, s, x) == LET y == TLCEval(E(k, XorC(x, s.prev))) IN [prev |-> y, out |-> s.out \o y]
DecStep(k, s, y) == [prev |-> y, out |-> s.out \o XorC(D(k, y), s.prev)]

CbcEnc(k, iv, data) ==
    LET p == data \o Padding(Len(data))
    IN FoldLeft(LAMBDA s, i : EncStep(k, s, BlockOf(p, i)), [prev |-> iv, out |-> <<>>], [i \in 1..(Len(p) \div B) |-> i]).out

Raw(k, iv, c) == FoldLeft(LAMBDA s, i : DecStep(k, s, BlockOf(c, i)), [prev |-> iv, out |-> <<>>], [i \in 1..(Len(c) \div B) |-> i]).out
Padded(p) == /\ Last(p) \in 1..B
             /\ \A i \in Len(p) - Last(p) + 1..Len(p) : p[i] = Last(p)
CbcDec(k, iv, c) ==
    IF c = <<>> \/ Len(c) % B # 0 THEN [ok |-> FALSE, data |-> <<>>]
    ELSE LET p == TLCEval(Raw(k, iv, c))
         IN IF Padded(p) THEN [ok |-> TRUE, data |-> SubSeq(p, 1, Len(p) - Last(p))] ELSE [ok |-> FALSE, data |-> <<>>]
=============================================================================
