------------------------------- MODULE CbcTrace -------------------------------
(***************************************************************************)
(* Recorded encryptions and decryptions of streams: with a transparent toy *)
(* cipher (a rotation of affine bytes), with AES and with Twofish.         *)
(***************************************************************************)
EXTENDS TraceBase, SequencesExt
VARIABLE ks
A == INSTANCE Aes
T == INSTANCE Twofish
ToyE(k, x) == [j \in 1..16 |-> LET i == IF j = 1 THEN 15 ELSE j - 2 IN (x[i + 1] * 5 + k + i) % 256]
ToyD(k, y) == [i \in 1..16 |-> LET j == (i % 16) + 1 IN ((y[j] + 512 - k - (i - 1)) * 205) % 256]
KE(k, x) == CASE k[1] = "toy" -> ToyE(k[2], x) [] k[1] = "aes" -> A!AesEnc(k[2], x) [] k[1] = "twofish" -> T!TwofishEnc(k[2], x)
KD(k, y) == CASE k[1] = "toy" -> ToyD(k[2], y) [] k[1] = "aes" -> A!AesDec(k[2], y) [] k[1] = "twofish" -> T!TwofishDec(k[2], y)
C == INSTANCE Cbc WITH B <- 16, E <- KE, D <- KD

Dead == {"crash", "hang", "other", "null"}
Make(e) == ks' = <<e.cipher, CASE e.cipher = "toy" -> e.key[1] [] e.cipher = "aes" -> A!AesKeys(e.key) [] e.cipher = "twofish" -> T!TwofishKeys(e.key)>>
Same(e) == UNCHANGED ks
Enc(e) == /\ Eq("encrypt", [out |-> e.out, good |-> e.good, data |-> e.y], [out |-> "ok", good |-> "true", data |-> C!CbcEnc(ks, e.iv, e.x)])
          /\ UNCHANGED ks
Dec(e) == LET d == C!CbcDec(ks, e.iv, e.x) IN
          /\ IF d.ok THEN Eq("decrypt", [out |-> e.out, good |-> e.good, data |-> e.y], [out |-> "ok", good |-> "true", data |-> d.data])
             ELSE Chk("invalid text not refused", e.out \notin Dead \cup {"ok"}, [out |-> e.out, got |-> e.y])
          /\ UNCHANGED ks
(* A destination that takes only so many bytes: what arrived is a prefix    *)
(* and the stream shows the failure.                                        *)
Full(e) == LET want == IF e.dir = "enc" THEN C!CbcEnc(ks, e.iv, e.x) ELSE C!CbcDec(ks, e.iv, e.x).data IN
           /\ Chk("full destination", /\ e.out \notin Dead
                                      /\ IsPrefix(e.y, want)
                                      /\ (e.out = "ok" /\ e.good = "true") => e.y = want, [out |-> e.out, good |-> e.good, got |-> e.y])
           /\ UNCHANGED ks
(* Long streams: made and taken back by the code, compared by an            *)
(* independent implementation; as digests.                                  *)
Large(e) == Eq("large " \o e.what, e.got, e.want) /\ UNCHANGED ks

Init == Start /\ ks = <<>>
Next == /\ More /\ Advance
        /\ LET e == Ev[l] IN CASE e.e = "make" -> Make(e) [] e.e = "enc" -> Enc(e) [] e.e = "dec" -> Dec(e) [] e.e = "full" -> Full(e)
                                [] e.e = "large" -> Large(e)
=============================================================================
