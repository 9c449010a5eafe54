------------------------------- MODULE KeyTrace -------------------------------
(***************************************************************************)
(* Runs of Key objects.                                                    *)
(***************************************************************************)
EXTENDS TraceBase, KeyDerive
VARIABLE keys

Known == DOMAIN keys
Put(k, v) == keys' = [x \in Known \cup {k} |-> IF x = k THEN v ELSE keys[x]]
New(e) == Put(e.k, IF "ctor" \in DOMAIN e THEN WithPassword(NoParts, e.ctor) ELSE NoParts)
Password(e) == Chk("password refused", e.out = "ok", [out |-> e.out]) /\ Put(e.k, WithPassword(keys[e.k], e.v))
KeyFile(e) ==
    /\ IF FileKey(e.file) = <<>>
       THEN Chk("key file must be refused", e.out \in (IF e.file.form = "missing" THEN {"NotFound", "Io"} ELSE {"Format", "Io", "NotFound"}),
                [out |-> e.out, file |-> e.file])
       ELSE Chk("key file must be read", e.out = "ok", [out |-> e.out, file |-> e.file])
    /\ Put(e.k, WithKeyFile(keys[e.k], e.file))
Derive(e) ==
    /\ Eq("derived key", [out |-> e.out, key |-> e.key], [out |-> "ok", key |-> Derived(keys[e.k], e.seed, e.n, e.mode)])
    /\ UNCHANGED keys
(* Round counts beyond what is computed here: an independent program gives  *)
(* the enciphered halves (y), and shows what it does on a smaller count.    *)
Far(e) ==
    LET k == TLCEval(Combined(keys[e.k], e.mode))
        ks == TLCEval(AesKeys(e.seed))
    IN /\ Eq("the other program counts otherwise", e.near, Rounds(ks, SubSeq(k, 1, 16), e.m) \o Rounds(ks, SubSeq(k, 17, 32), e.m))
       /\ Eq("derived key", [out |-> e.out, key |-> e.key], [out |-> "ok", key |-> Sha256(e.y)])
       /\ UNCHANGED keys
(* n + 2^32 (or more) rounds take longer than anybody waits: no answer, and *)
(* least of all the one for n.                                              *)
Beyond(e) == Chk("fewer rounds than asked for", e.out # "ok", [out |-> e.out, key |-> e.key]) /\ UNCHANGED keys
Digest(e) == Eq("published example", Sha256(e.x), e.y) /\ UNCHANGED keys

Init == Start /\ keys = [x \in {} |-> <<>>]
Next == /\ More /\ Advance
        /\ LET e == Ev[l] IN CASE e.e = "new" -> New(e) [] e.e = "pw" -> Password(e) [] e.e = "kf" -> KeyFile(e)
                                [] e.e = "derive" -> Derive(e) [] e.e = "far" -> Far(e)
                                [] e.e = "beyond" -> Beyond(e) [] e.e = "digest" -> Digest(e)
=============================================================================
