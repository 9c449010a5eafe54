------------------------------- MODULE Sha256 -------------------------------
(***************************************************************************)
(* SHA-256 (FIPS 180-4) of a sequence of bytes.  A 32-bit word is a pair   *)
(* <<high, low>> of 16-bit numbers, as TLC integers have 32 bits.          *)
(***************************************************************************)
EXTENDS Words

K256 ==
    <<<<17034, 12184>>, <<28983, 17553>>, <<46528, 64463>>, <<59829, 56229>>, <<14678, 49755>>,
      <<23025, 4593>>, <<37439, 33444>>, <<43804, 24277>>, <<55303, 43672>>, <<4739, 23297>>,
      <<9265, 34238>>, <<21772, 32195>>, <<29374, 23924>>, <<32990, 45566>>, <<39900, 1703>>,
      <<49563, 61812>>, <<58523, 27073>>, <<61374, 18310>>, <<4033, 40390>>, <<9228, 41420>>,
      <<11753, 11375>>, <<19060, 33962>>, <<23728, 43484>>, <<30457, 35034>>, <<38974, 20818>>,
      <<43057, 50797>>, <<45059, 10184>>, <<48985, 32711>>, <<50912, 3059>>, <<54695, 37191>>,
      <<1738, 25425>>, <<5161, 10599>>, <<10167, 2693>>, <<11803, 8504>>, <<19756, 28156>>, <<21304,
      3347>>, <<25866, 29524>>, <<30314, 2747>>, <<33218, 51502>>, <<37490, 11397>>, <<41663,
      59553>>, <<43034, 26187>>, <<49739, 35696>>, <<51052, 20899>>, <<53650, 59417>>, <<54937,
      1572>>, <<62478, 13701>>, <<4202, 41072>>, <<6564, 49430>>, <<7735, 27656>>, <<10056, 30540>>,
      <<13488, 48309>>, <<14620, 3251>>, <<20184, 43594>>, <<23452, 51791>>, <<26670, 28659>>,
      <<29839, 33518>>, <<30885, 25455>>, <<33992, 30740>>, <<36039, 520>>, <<37054, 65530>>,
      <<42064, 27883>>, <<48889, 41975>>, <<50801, 30962>>>>
H256 ==
    <<<<27145, 58983>>, <<47975, 44677>>, <<15470, 62322>>, <<42319, 62778>>, <<20750, 21119>>,
      <<39685, 26764>>, <<8067, 55723>>, <<23520, 52505>>>>

Sig0(x) == XorW(XorW(RotR(x, 2), RotR(x, 13)), RotR(x, 22))
Sig1(x) == XorW(XorW(RotR(x, 6), RotR(x, 11)), RotR(x, 25))
Del0(x) == XorW(XorW(RotR(x, 7), RotR(x, 18)), ShrW(x, 3))
Del1(x) == XorW(XorW(RotR(x, 17), RotR(x, 19)), ShrW(x, 10))
Ch(x, y, z) == XorW(AndW(x, y), AndW(NotW(x), z))
Maj(x, y, z) == XorW(XorW(AndW(x, y), AndW(x, z)), AndW(y, z))

(* The message with its padding: one bit, zeros, the length in bits.        *)
Padded(m) == LET n == Len(m)
                 z == (119 - (n % 64)) % 64
             IN m \o <<128>> \o [i \in 1..z |-> 0]
                  \o <<0, 0, 0, (n \div 536870912) % 256, (n \div 2097152) % 256, (n \div 8192) % 256, (n \div 32) % 256, (n * 8) % 256>>

RECURSIVE Schedule(_)
Schedule(w) == LET t == Len(w) + 1 IN
    IF t > 64 THEN w
    ELSE LET n == TLCEval(AddW(AddW(Del1(w[t - 2]), w[t - 7]), AddW(Del0(w[t - 15]), w[t - 16]))) IN Schedule(TLCEval(Append(w, n)))

RECURSIVE Rounds256(_, _, _)
Rounds256(w, t, v) ==
    IF t > 64 THEN v
    ELSE LET t1 == TLCEval(AddW(AddW(AddW(v[8], Sig1(v[5])), AddW(Ch(v[5], v[6], v[7]), K256[t])), w[t]))
             t2 == TLCEval(AddW(Sig0(v[1]), Maj(v[1], v[2], v[3])))
         IN Rounds256(w, t + 1, TLCEval(<<AddW(t1, t2), v[1], v[2], v[3], AddW(v[4], t1), v[5], v[6], v[7]>>))

Block256(h, b) ==
    LET w == TLCEval(Schedule(TLCEval([i \in 1..16 |-> BeWord(b, 4 * i - 3)])))
        v == TLCEval(Rounds256(w, 1, h))
    IN TLCEval([i \in 1..8 |-> AddW(h[i], v[i])])
Pieces(m, n) == TLCEval([i \in 1..(Len(m) \div n) |-> SubSeq(m, n * (i - 1) + 1, n * i)])

Sha256(m) == TLCEval(FlattenBe(FoldLeft(Block256, H256, Pieces(TLCEval(Padded(m)), 64))))
=============================================================================
