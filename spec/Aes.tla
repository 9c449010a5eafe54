--------------------------------- MODULE Aes ---------------------------------
(***************************************************************************)
(* AES-256 (FIPS 197): blocks and keys are sequences of bytes.  The S-box  *)
(* is computed from its definition: inverse in GF(2^8), then the affine    *)
(* map.                                                                    *)
(***************************************************************************)
EXTENDS Words

XTime(a) == IF a < 128 THEN 2 * a ELSE (2 * a - 256) ^^ 27

RECURSIVE Powers(_)                   \* powers of the generator 3
Powers(s) == IF Len(s) = 255 THEN s ELSE Powers(Append(s, Last(s) ^^ XTime(Last(s))))
Exp == TLCEval(Powers(<<1>>))
Log == TLCEval([a \in 1..255 |-> (CHOOSE i \in 1..255 : Exp[i] = a) - 1])
Mul(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE Exp[((Log[a] + Log[b]) % 255) + 1]
Inv(a) == IF a = 0 THEN 0 ELSE Exp[((255 - Log[a]) % 255) + 1]
Rot8(a, n) == ((a * (2 ^ n)) % 256) + (a \div (2 ^ (8 - n)))
Affine(a) == ((((a ^^ Rot8(a, 1)) ^^ Rot8(a, 2)) ^^ Rot8(a, 3)) ^^ Rot8(a, 4)) ^^ 99
SBox == TLCEval([a \in 0..255 |-> Affine(Inv(a))])
SInv == TLCEval([b \in 0..255 |-> CHOOSE a \in 0..255 : SBox[a] = b])
Times(k) == TLCEval([a \in 0..255 |-> Mul(k, a)])
M2 == Times(2)
M3 == Times(3)
M9 == Times(9)
MB == Times(11)
MD == Times(13)
ME == Times(14)

(* Key expansion: 60 words of 4 bytes.                                      *)
Sub4(w) == <<SBox[w[1]], SBox[w[2]], SBox[w[3]], SBox[w[4]]>>
RCon == <<1, 2, 4, 8, 16, 32, 64>>
RECURSIVE Expand(_)
Expand(w) ==
    LET i == Len(w) IN
    IF i = 60 THEN w
    ELSE LET p == w[i]
             t == IF i % 8 = 0 THEN LET s == Sub4(<<p[2], p[3], p[4], p[1]>>) IN <<s[1] ^^ RCon[i \div 8], s[2], s[3], s[4]>>
                  ELSE IF i % 8 = 4 THEN Sub4(p) ELSE p
         IN Expand(Append(w, XorB(w[i - 7], t)))
AesKeys(key) ==                       \* round keys 1..15 of 16 bytes
    LET w == TLCEval(Expand([i \in 1..8 |-> SubSeq(key, 4 * i - 3, 4 * i)]))
    IN TLCEval([r \in 1..15 |-> w[4 * r - 3] \o w[4 * r - 2] \o w[4 * r - 1] \o w[4 * r]])

(* Byte i of the state is row (i-1)%4 of column (i-1)\div 4.                *)
Shifted == <<1, 6, 11, 16, 5, 10, 15, 4, 9, 14, 3, 8, 13, 2, 7, 12>>
ShiftedBack == <<1, 14, 11, 8, 5, 2, 15, 12, 9, 6, 3, 16, 13, 10, 7, 4>>
SubShift(s) == TLCEval([i \in 1..16 |-> SBox[s[Shifted[i]]]])
InvSubShift(s) == TLCEval([i \in 1..16 |-> SInv[s[ShiftedBack[i]]]])
Nth(i, k) == 4 * ((i - 1) \div 4) + ((i - 1 + k) % 4) + 1      \* k rows further down in the column of i
Mix(s) == TLCEval([i \in 1..16 |-> ((M2[s[i]] ^^ M3[s[Nth(i, 1)]]) ^^ s[Nth(i, 2)]) ^^ s[Nth(i, 3)]])
InvMix(s) == TLCEval([i \in 1..16 |-> ((ME[s[i]] ^^ MB[s[Nth(i, 1)]]) ^^ MD[s[Nth(i, 2)]]) ^^ M9[s[Nth(i, 3)]]])

RECURSIVE EncRounds(_, _, _), DecRounds(_, _, _)
EncRounds(k, r, s) == IF r = 15 THEN XorB(SubShift(s), k[15]) ELSE EncRounds(k, r + 1, XorB(Mix(SubShift(s)), k[r]))
DecRounds(k, r, s) == IF r = 1 THEN XorB(InvSubShift(s), k[1]) ELSE DecRounds(k, r - 1, InvMix(XorB(InvSubShift(s), k[r])))
AesEnc(k, b) == EncRounds(k, 2, XorB(b, k[1]))                \* k: AesKeys(key)
AesDec(k, b) == DecRounds(k, 14, XorB(b, k[15]))
=============================================================================
