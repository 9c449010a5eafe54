------------------------------- MODULE Salsa20 -------------------------------
(***************************************************************************)
(* Salsa20/20 with a 256-bit key: key stream block n (n < 2^31).           *)
(***************************************************************************)
EXTENDS Words

Sigma == <<101, 120, 112, 97, 110, 100, 32, 51, 50, 45, 98, 121, 116, 101, 32, 107>>     \* expand 32-byte k
Quarter(x, a, b, c, d) ==
    LET b1 == TLCEval(XorW(x[b], RotL(AddW(x[a], x[d]), 7)))
        c1 == TLCEval(XorW(x[c], RotL(AddW(b1, x[a]), 9)))
        d1 == TLCEval(XorW(x[d], RotL(AddW(c1, b1), 13)))
        a1 == TLCEval(XorW(x[a], RotL(AddW(d1, c1), 18)))
    IN TLCEval([x EXCEPT ![a] = a1, ![b] = b1, ![c] = c1, ![d] = d1])
Columns(x) == Quarter(Quarter(Quarter(Quarter(x, 1, 5, 9, 13), 6, 10, 14, 2), 11, 15, 3, 7), 16, 4, 8, 12)
Rows(x) == Quarter(Quarter(Quarter(Quarter(x, 1, 2, 3, 4), 6, 7, 8, 5), 11, 12, 9, 10), 16, 13, 14, 15)
RECURSIVE Double(_, _)
Double(x, n) == IF n = 0 THEN x ELSE Double(Rows(Columns(x)), n - 1)
SalsaBlock(key, iv, n) ==
    LET x == TLCEval(<<LeWord(Sigma, 1), LeWord(key, 1), LeWord(key, 5), LeWord(key, 9), LeWord(key, 13), LeWord(Sigma, 5),
                       LeWord(iv, 1), LeWord(iv, 5), Word(n), <<0, 0>>, LeWord(Sigma, 9),
                       LeWord(key, 17), LeWord(key, 21), LeWord(key, 25), LeWord(key, 29), LeWord(Sigma, 13)>>)
        z == Double(x, 10)
    IN TLCEval(FlattenLe([i \in 1..16 |-> AddW(x[i], z[i])]))
=============================================================================
