--------------------------------- MODULE Gzip ---------------------------------
(***************************************************************************)
(* Reading a gzip member (RFC 1952) with deflated content (RFC 1951).  The *)
(* stream is a sequence of bytes; a position in the deflated part is a     *)
(* number of bits.                                                         *)
(***************************************************************************)
EXTENDS Words

-----------------------------------------------------------------------------
(* CRC-32.                                                                  *)
CrcPoly == <<60856, 33568>>                    \* edb88320
RECURSIVE CrcBits(_, _)
CrcBits(w, n) == IF n = 0 THEN w ELSE LET v == TLCEval(ShrW(w, 1)) IN
                 CrcBits(IF w[2] % 2 = 1 THEN TLCEval(XorW(v, CrcPoly)) ELSE v, n - 1)
CrcTable == TLCEval([b \in 0..255 |-> CrcBits(<<0, b>>, 8)])
CrcStep(w, b) == TLCEval(XorW(ShrW(w, 8), CrcTable[(w[2] ^^ b) % 256]))
Crc(d) == NotW(FoldLeft(CrcStep, <<65535, 65535>>, d))

-----------------------------------------------------------------------------
(* Bits, least significant first.                                           *)
Two == [i \in 0..15 |-> 2 ^ i]
Bit(b, at) == (b[(at \div 8) + 1] \div Two[at % 8]) % 2
Enough(b, at, n) == at + n <= 8 * Len(b)
RECURSIVE Bits(_, _, _)
Bits(b, at, n) == IF n = 0 THEN 0 ELSE Bit(b, at) + 2 * Bits(b, at + 1, n - 1)

(* A canonical code from the lengths of its words: count[k] words of length *)
(* k, their symbols in order.                                               *)
CodeOf(lens) ==
    LET n == Len(lens)
        of(k) == SelectSeq([i \in 1..n |-> i], LAMBDA i : lens[i] = k)
        by == TLCEval([k \in 1..15 |-> of(k)])
    IN TLCEval([count |-> [k \in 1..15 |-> Len(by[k])],
                symbol |-> FlattenSeq([k \in 1..15 |-> [j \in 1..Len(by[k]) |-> by[k][j] - 1]])])
RECURSIVE Space(_, _, _)                       \* unused words of 15 bits; negative: over-subscribed
Space(count, k, left) == IF k > 15 THEN left ELSE LET m == 2 * left - count[k] IN IF m < 0 THEN m ELSE Space(count, k + 1, m)
Left(code) == Space(code.count, 1, 1)

RECURSIVE Walk(_, _, _, _, _, _, _)
Walk(b, at, code, k, word, first, index) ==    \* <<symbol, next position>>, symbol -1: no such word or input ends
    IF k > 15 \/ ~Enough(b, at, 1) THEN <<-1, at>>
    ELSE LET w == word + Bit(b, at)
             n == code.count[k]
         IN IF w - n < first THEN <<code.symbol[index + (w - first) + 1], at + 1>>
            ELSE Walk(b, at + 1, code, k + 1, 2 * w, 2 * (first + n), index + n)
Symbol(b, at, code) == TLCEval(Walk(b, at, code, 1, 0, 0, 0))

-----------------------------------------------------------------------------
Fail == [end |-> "error", at |-> 0, out |-> <<>>]
LenBase == <<3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258>>
LenExtra == <<0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0>>
DistBase == <<1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193,
              12289, 16385, 24577>>
DistExtra == <<0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13>>
CodedCopy(out, dist, n) == LET m == Len(out) IN TLCEval(out \o [i \in 1..n |-> out[m - dist + 1 + ((i - 1) % dist)]])

RECURSIVE Coded(_, _, _, _, _)
Coded(b, at, out, lit, dist) ==
    LET s == Symbol(b, at, lit) IN
    IF s[1] = -1 \/ s[1] > 285 THEN Fail
    ELSE IF s[1] < 256 THEN LET o == TLCEval(Append(out, s[1])) IN Coded(b, s[2], o, lit, dist)
    ELSE IF s[1] = 256 THEN [end |-> "ok", at |-> s[2], out |-> out]
    ELSE LET li == s[1] - 256
             lx == LenExtra[li]
         IN IF ~Enough(b, s[2], lx) THEN Fail
            ELSE LET n == LenBase[li] + Bits(b, s[2], lx)
                     t == Symbol(b, s[2] + lx, dist)
                 IN IF t[1] = -1 \/ t[1] > 29 THEN Fail
                    ELSE LET dx == DistExtra[t[1] + 1] IN
                         IF ~Enough(b, t[2], dx) THEN Fail
                         ELSE LET d == DistBase[t[1] + 1] + Bits(b, t[2], dx) IN
                              IF d > Len(out) THEN Fail
                              ELSE LET o == TLCEval(CodedCopy(out, d, n)) IN Coded(b, t[2] + dx, o, lit, dist)

FixedLit == TLCEval(CodeOf([i \in 1..288 |-> IF i <= 144 THEN 8 ELSE IF i <= 256 THEN 9 ELSE IF i <= 280 THEN 7 ELSE 8]))
FixedDist == TLCEval(CodeOf([i \in 1..30 |-> 5]))

Stored(b, at0, out) ==
    LET at == ((at0 + 7) \div 8) * 8 IN
    IF ~Enough(b, at, 32) THEN Fail
    ELSE LET k == (at \div 8) + 1
             n == b[k] + 256 * b[k + 1]
         IN IF n + b[k + 2] + 256 * b[k + 3] # 65535 \/ ~Enough(b, at + 32, 8 * n) THEN Fail
            ELSE [end |-> "ok", at |-> at + 32 + 8 * n, out |-> TLCEval(out \o SubSeq(b, k + 4, k + 3 + n))]

Order == <<16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15>>
RECURSIVE Lengths(_, _, _, _, _)               \* <<lengths, position>>, <<>> if malformed
Lengths(b, at, code, want, got) ==
    IF Len(got) = want THEN <<got, at>>
    ELSE IF Len(got) > want THEN <<>>
    ELSE LET s == Symbol(b, at, code) IN
         IF s[1] = -1 THEN <<>>
         ELSE IF s[1] < 16 THEN LET g == TLCEval(Append(got, s[1])) IN Lengths(b, s[2], code, want, g)
         ELSE LET x == IF s[1] = 16 THEN 2 ELSE IF s[1] = 17 THEN 3 ELSE 7 IN
              IF ~Enough(b, s[2], x) \/ (s[1] = 16 /\ got = <<>>) THEN <<>>
              ELSE LET n == Bits(b, s[2], x) + (IF s[1] = 18 THEN 11 ELSE 3)
                       v == IF s[1] = 16 THEN got[Len(got)] ELSE 0
                       g == TLCEval(got \o [i \in 1..n |-> v])
                   IN Lengths(b, s[2] + x, code, want, g)
Dynamic(b, at, out) ==
    IF ~Enough(b, at, 14) THEN Fail
    ELSE LET nl == Bits(b, at, 5) + 257
             nd == Bits(b, at + 5, 5) + 1
             nc == Bits(b, at + 10, 4) + 4
         IN IF nl > 286 \/ nd > 30 \/ ~Enough(b, at + 14, 3 * nc) THEN Fail
            ELSE LET cl == TLCEval([s \in 1..19 |-> LET i == CHOOSE i \in 1..19 : Order[i] = s - 1 IN
                                                    IF i <= nc THEN Bits(b, at + 14 + 3 * (i - 1), 3) ELSE 0])
                     cc == CodeOf(cl)
                 IN IF Left(cc) # 0 THEN Fail
                    ELSE LET r == TLCEval(Lengths(b, at + 14 + 3 * nc, cc, nl + nd, <<>>)) IN
                         IF r = <<>> THEN Fail
                         ELSE LET lit == CodeOf(SubSeq(r[1], 1, nl))
                                  dist == CodeOf(SubSeq(r[1], nl + 1, nl + nd))
                              IN IF r[1][257] = 0 \/ Left(lit) < 0 \/ Left(dist) < 0 THEN Fail
                                 ELSE Coded(b, r[2], out, lit, dist)

RECURSIVE Inflate(_, _, _)
Inflate(b, at, out) ==
    IF ~Enough(b, at, 3) THEN Fail
    ELSE LET kind == Bits(b, at + 1, 2)
             r == TLCEval(CASE kind = 0 -> Stored(b, at + 3, out)
                            [] kind = 1 -> Coded(b, at + 3, out, FixedLit, FixedDist)
                            [] kind = 2 -> Dynamic(b, at + 3, out)
                            [] OTHER -> Fail)
         IN IF r.end = "error" \/ Bit(b, at) = 1 THEN r ELSE Inflate(b, r.at, r.out)

-----------------------------------------------------------------------------
(* The member.                                                              *)
RECURSIVE ZeroFrom(_, _)
ZeroFrom(b, at) == IF at > Len(b) THEN 0 ELSE IF b[at] = 0 THEN at ELSE ZeroFrom(b, at + 1)
Flag(b, k) == (b[4] \div Two[k]) % 2 = 1
(* Position of the first deflated byte, 0 if the header is malformed.       *)
HeaderEnd(b) ==
    IF Len(b) < 10 \/ b[1] # 31 \/ b[2] # 139 \/ b[3] # 8 \/ b[4] > 31 THEN 0
    ELSE LET p1 == IF ~Flag(b, 2) THEN 11 ELSE IF Len(b) < 12 THEN 0 ELSE 13 + b[11] + 256 * b[12]
             p2 == IF p1 = 0 \/ ~Flag(b, 3) THEN p1 ELSE LET z == ZeroFrom(b, p1) IN IF z = 0 THEN 0 ELSE z + 1
             p3 == IF p2 = 0 \/ ~Flag(b, 4) THEN p2 ELSE LET z == ZeroFrom(b, p2) IN IF z = 0 THEN 0 ELSE z + 1
         IN IF p3 = 0 \/ ~Flag(b, 1) THEN p3
            ELSE IF p3 + 1 > Len(b) THEN 0
            ELSE LET w == Crc(SubSeq(b, 1, p3 - 1)) IN IF w[2] = b[p3] + 256 * b[p3 + 1] THEN p3 + 2 ELSE 0
(* [end, data, rest]                                                        *)
Bad == [end |-> "error", data |-> <<>>, rest |-> 0]
Member(b) ==
    LET h == HeaderEnd(b) IN
    IF h = 0 \/ h > Len(b) THEN Bad
    ELSE LET r == TLCEval(Inflate(b, 8 * (h - 1), <<>>)) IN
         IF r.end = "error" THEN Bad
         ELSE LET p == ((r.at + 7) \div 8) + 1 IN
              IF p + 7 > Len(b) THEN Bad
              ELSE IF LeWord(b, p) # Crc(r.out) \/ LeWord(b, p + 4) # Word(Len(r.out)) THEN Bad
              ELSE [end |-> "ok", data |-> r.out, rest |-> Len(b) - (p + 7)]
=============================================================================
