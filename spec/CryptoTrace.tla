----------------------------- MODULE CryptoTrace -----------------------------
(***************************************************************************)
(* Runs of the cipher objects: a block cipher gives the same answer for    *)
(* the same block whatever it did before; the stream cipher's only state   *)
(* is its position.                                                        *)
(***************************************************************************)
EXTENDS TraceBase
VARIABLES ks, pos
A == INSTANCE Aes
T == INSTANCE Twofish
Z == INSTANCE Salsa20

(* A new cipher object.                                                     *)
Make(e) == /\ pos' = 0
           /\ ks' = CASE e.cipher = "aes" -> A!AesKeys(e.key)
                      [] e.cipher = "twofish" -> T!TwofishKeys(e.key)
                      [] e.cipher = "salsa" -> <<e.key, e.iv>>
Apply(e) == CASE e.cipher = "aes" -> IF e.dir = "enc" THEN A!AesEnc(ks, e.x) ELSE A!AesDec(ks, e.x)
              [] e.cipher = "twofish" -> IF e.dir = "enc" THEN T!TwofishEnc(ks, e.x) ELSE T!TwofishDec(ks, e.x)
Block(e) == Eq("block " \o e.cipher \o " " \o e.dir, e.y, Apply(e)) /\ UNCHANGED <<ks, pos>>
Masked(e) == /\ Eq("key stream block", e.y, Z!XorB(e.x, Z!SalsaBlock(ks[1], ks[2], pos)))
             /\ pos' = pos + 1 /\ UNCHANGED ks
(* Two blocks with the block cipher alone (each by itself).                 *)
Two(e) == /\ Eq("two blocks", e.y, LET f(x) == IF e.dir = "enc" THEN A!AesEnc(ks, x) ELSE A!AesDec(ks, x)
                                   IN f(SubSeq(e.x, 1, 16)) \o f(SubSeq(e.x, 17, 32)))
          /\ UNCHANGED <<ks, pos>>
(* Answers known from elsewhere: the published examples, checked on the     *)
(* specification itself.                                                    *)
Known(e) == Eq("published example", Apply(e), e.y) /\ UNCHANGED <<ks, pos>>
Far(e) == pos' = pos + e.n /\ UNCHANGED ks

Init == Start /\ ks = <<>> /\ pos = 0
Next == /\ More /\ Advance
        /\ LET e == Ev[l] IN CASE e.e = "make" -> Make(e) [] e.e = "block" -> Block(e) [] e.e = "salsa" -> Masked(e)
                                [] e.e = "two" -> Two(e) [] e.e = "known" -> Known(e) [] e.e = "far" -> Far(e)
=============================================================================
