------------------------------ MODULE MaskTrace ------------------------------
(***************************************************************************)
(* Documents made or read by the library: the values found in a document,  *)
(* in document order, with what is stored of each, and the values of the   *)
(* database it stands for.                                                 *)
(***************************************************************************)
EXTENDS TraceBase, Masking
VARIABLES ks, pos, vals
Z == INSTANCE Salsa20
S == INSTANCE Sha256
Nonce == <<232, 48, 9, 75, 151, 32, 93, 42>>
Key(i) == ks[i]
KeyStream(key, n) == LET k == TLCEval(S!Sha256(key))
                         bs == TLCEval([b \in 1..n |-> Z!SalsaBlock(k, Nonce, b - 1)])
                     IN TLCEval([i \in 1..64 * n |-> bs[((i - 1) \div 64) + 1][((i - 1) % 64) + 1]])

(* A stream key; all documents until the next one use it.                   *)
RKey(e) == ks' = KeyStream(e.key, e.n) /\ pos' = 0 /\ vals' = <<>>
Doc(e) == pos' = 0 /\ vals' = <<>> /\ UNCHANGED ks
(* The next value of the document.  An element may be marked as to be       *)
(* protected in memory though it is stored plainly.                         *)
Stored(e) == LET m == MaskAt(Key, pos, e.prot = "true", e.bytes) IN
    /\ pos' = m[2]
    /\ vals' = IF e.place = "" THEN vals ELSE Append(vals, [p |-> e.place, mark |-> IF e.prot = "true" \/ e.mem = "true" THEN "P" ELSE "U", v |-> m[1]])
    /\ UNCHANGED ks
Range2(s) == {s[i] : i \in 1..Len(s)}
Diff(a, b) == [missing |-> b \ a, extra |-> a \ b]
(* The database the document stands for has exactly these values.           *)
Meant(e) == /\ Chk("values " \o e.what, e.out = "ok" /\ Range2(e.vals) = Range2(vals), [out |-> e.out, diff |-> Diff(Range2(e.vals), Range2(vals))])
            /\ UNCHANGED <<ks, pos, vals>>
(* Whether a value can be seen in the document without the key.             *)
Seen(e) == Eq("protected value readable", e.found, "false") /\ UNCHANGED <<ks, pos, vals>>
Init == Start /\ ks = <<>> /\ pos = 0 /\ vals = <<>>
Next == /\ More /\ Advance
        /\ LET e == Ev[l] IN CASE e.e = "rkey" -> RKey(e) [] e.e = "doc" -> Doc(e) [] e.e = "stored" -> Stored(e)
                                [] e.e = "meant" -> Meant(e) [] e.e = "seen" -> Seen(e)
=============================================================================
