------------------------------- MODULE Twofish -------------------------------
(***************************************************************************)
(* Twofish with a 256-bit key (Schneier et al., 1998).  Words are          *)
(* sequences of four bytes, least significant first.                       *)
(***************************************************************************)
EXTENDS Words

RECURSIVE PolyMul(_, _, _)            \* in GF(2)[x]/m, m given without its leading bit
PolyMul(a, b, m) == IF b = 0 THEN 0
                    ELSE (IF b % 2 = 1 THEN a ELSE 0) ^^ PolyMul(IF a < 128 THEN 2 * a ELSE (2 * a - 256) ^^ m, b \div 2, m)
MdsPoly == 105                        \* x^8+x^6+x^5+x^3+1
RsPoly == 77                          \* x^8+x^6+x^3+x^2+1

T0 == << <<8, 1, 7, 13, 6, 15, 3, 2, 0, 11, 5, 9, 14, 12, 10, 4>>, <<14, 12, 11, 8, 1, 2, 3, 5, 15, 4, 10, 6, 7, 0, 9, 13>>,
         <<11, 10, 5, 14, 6, 13, 9, 0, 12, 8, 15, 3, 2, 4, 7, 1>>, <<13, 7, 15, 4, 1, 2, 6, 14, 9, 11, 3, 0, 8, 5, 12, 10>> >>
T1 == << <<2, 8, 11, 13, 15, 7, 6, 14, 3, 1, 9, 4, 0, 10, 12, 5>>, <<1, 14, 2, 11, 4, 12, 3, 7, 6, 13, 10, 5, 15, 9, 0, 8>>,
         <<4, 12, 7, 5, 1, 6, 9, 10, 0, 14, 13, 8, 2, 11, 3, 15>>, <<11, 9, 5, 1, 12, 3, 13, 14, 6, 4, 7, 15, 2, 0, 8, 10>> >>
Ror4(x) == x \div 2 + (x % 2) * 8
QOf(t, x) ==
    LET a0 == x \div 16
        b0 == x % 16
        a1 == a0 ^^ b0
        b1 == (a0 ^^ Ror4(b0)) ^^ ((8 * a0) % 16)
        a2 == t[1][a1 + 1]
        b2 == t[2][b1 + 1]
        a3 == a2 ^^ b2
        b3 == (a2 ^^ Ror4(b2)) ^^ ((8 * a2) % 16)
    IN 16 * t[4][b3 + 1] + t[3][a3 + 1]
Q0 == TLCEval([x \in 0..255 |-> QOf(T0, x)])
Q1 == TLCEval([x \in 0..255 |-> QOf(T1, x)])

M01 == [x \in 0..255 |-> x]
M5B == TLCEval([x \in 0..255 |-> PolyMul(x, 91, MdsPoly)])
MEF == TLCEval([x \in 0..255 |-> PolyMul(x, 239, MdsPoly)])
Mds(y) == TLCEval(<<((y[1] ^^ MEF[y[2]]) ^^ M5B[y[3]]) ^^ M5B[y[4]],
                    ((M5B[y[1]] ^^ MEF[y[2]]) ^^ MEF[y[3]]) ^^ y[4],
                    ((MEF[y[1]] ^^ M5B[y[2]]) ^^ y[3]) ^^ MEF[y[4]],
                    ((MEF[y[1]] ^^ y[2]) ^^ MEF[y[3]]) ^^ M5B[y[4]]>>)

RsMatrix == << <<1, 164, 85, 135, 90, 88, 219, 158>>, <<164, 86, 130, 243, 30, 198, 104, 229>>,
               <<2, 161, 252, 193, 71, 174, 61, 25>>, <<164, 85, 135, 90, 88, 219, 158, 3>> >>
RECURSIVE SumX(_, _, _)
SumX(row, m, i) == IF i > 8 THEN 0 ELSE PolyMul(m[i], row[i], RsPoly) ^^ SumX(row, m, i + 1)
RsWord(m) == TLCEval([r \in 1..4 |-> SumX(RsMatrix[r], m, 1)])

(* The function h for four words.                                           *)
H(x, l) ==
    LET a == TLCEval(XorB(<<Q1[x[1]], Q0[x[2]], Q0[x[3]], Q1[x[4]]>>, l[4]))
        b == TLCEval(XorB(<<Q1[a[1]], Q1[a[2]], Q0[a[3]], Q0[a[4]]>>, l[3]))
        c == TLCEval(XorB(<<Q0[b[1]], Q1[b[2]], Q0[b[3]], Q1[b[4]]>>, l[2]))
        d == TLCEval(XorB(<<Q0[c[1]], Q0[c[2]], Q1[c[3]], Q1[c[4]]>>, l[1]))
    IN Mds(<<Q1[d[1]], Q0[d[2]], Q1[d[3]], Q0[d[4]]>>)

W(b) == LeWord(b, 1)                  \* as a number, and back
B(w) == LeBytes(w)
(* Key schedule: k = the 40 subkeys as words, s = the S-box key.            *)
TwofishKeys(key) ==
    LET me == TLCEval([i \in 1..4 |-> SubSeq(key, 8 * i - 7, 8 * i - 4)])
        mo == TLCEval([i \in 1..4 |-> SubSeq(key, 8 * i - 3, 8 * i)])
        s == TLCEval([i \in 1..4 |-> RsWord(SubSeq(key, 8 * (4 - i) + 1, 8 * (4 - i) + 8))])
        a == TLCEval([i \in 0..19 |-> W(H(<<2 * i, 2 * i, 2 * i, 2 * i>>, me))])
        b == TLCEval([i \in 0..19 |-> RotL(W(H(<<2 * i + 1, 2 * i + 1, 2 * i + 1, 2 * i + 1>>, mo)), 8)])
    IN TLCEval([s |-> s,
                k |-> [j \in 0..39 |-> LET i == j \div 2 IN
                          IF j % 2 = 0 THEN AddW(a[i], b[i]) ELSE RotL(AddW(a[i], AddW(b[i], b[i])), 9)]])
G(ks, w) == W(H(B(w), ks.s))
FPair(ks, r0, r1, r) ==
    LET t0 == TLCEval(G(ks, r0))
        t1 == TLCEval(G(ks, RotL(r1, 8)))
    IN TLCEval(<<AddW(AddW(t0, t1), ks.k[2 * r + 8]), AddW(AddW(t0, AddW(t1, t1)), ks.k[2 * r + 9])>>)
RECURSIVE TfEnc(_, _, _), TfDec(_, _, _)
TfEnc(ks, r, x) ==
    IF r = 16 THEN x
    ELSE LET f == FPair(ks, x[1], x[2], r)
         IN TfEnc(ks, r + 1, TLCEval(<<RotR(XorW(x[3], f[1]), 1), XorW(RotL(x[4], 1), f[2]), x[1], x[2]>>))
TfDec(ks, r, x) ==                    \* undoes rounds r-1 .. 0
    IF r = 0 THEN x
    ELSE LET f == FPair(ks, x[3], x[4], r - 1)
         IN TfDec(ks, r - 1, TLCEval(<<x[3], x[4], XorW(RotL(x[1], 1), f[1]), RotR(XorW(x[2], f[2]), 1)>>))
In(b, k, at) == TLCEval([i \in 1..4 |-> XorW(LeWord(b, 4 * i - 3), k[at + i - 1])])
TwofishEnc(ks, b) ==
    LET x == TfEnc(ks, 0, In(b, ks.k, 0))
    IN TLCEval(FlattenLe(<<XorW(x[3], ks.k[4]), XorW(x[4], ks.k[5]), XorW(x[1], ks.k[6]), XorW(x[2], ks.k[7])>>))
TwofishDec(ks, b) ==
    LET c == In(b, ks.k, 4)
        x == TfDec(ks, 16, TLCEval(<<c[3], c[4], c[1], c[2]>>))
    IN TLCEval(FlattenLe([i \in 1..4 |-> XorW(x[i], ks.k[i - 1])]))
=============================================================================
