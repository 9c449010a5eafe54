------------------------------ MODULE Session -------------------------------
(***************************************************************************)
(* What a program sees that uses the library: databases in memory, keys,   *)
(* files, and the operations on them.  Keeps(fmt, d) is what a file of     *)
(* format fmt can hold of database d; Matches(fmt, got, want) says that a  *)
(* loaded database shows exactly that.                                     *)
(*                                                                         *)
(* A key is the sequence of its parts (password digest, key-file key). A   *)
(* file is [fmt, key, state, out, content, src]; src is what was saved;    *)
(* state is "whole", "damaged" (somewhere), "header" (damaged in an        *)
(* authenticated header) or "begun" (a save failed; old is what was there  *)
(* before, if anything); out tells whether a whole file has a meaning.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Keeps(_, _), Matches(_, _, _)
VARIABLES dbs, keys, files
vars == <<dbs, keys, files>>

Put(f, k, v) == (k :> v) @@ f
Init == dbs = <<>> /\ keys = <<>> /\ files = <<>>

New(h, v) == dbs' = Put(dbs, h, v) /\ UNCHANGED <<keys, files>>
SetKey(k, parts) == keys' = Put(keys, k, parts) /\ UNCHANGED <<dbs, files>>
Place(p, f) == files' = Put(files, p, f) /\ UNCHANGED <<dbs, keys>>

(* Saving changes nothing but the file, all of which it replaces.           *)
Save(h, k, p, fmt) ==
    /\ h \in DOMAIN dbs /\ k \in DOMAIN keys
    /\ Place(p, [fmt |-> fmt, key |-> keys[k], state |-> "whole", out |-> "ok", content |-> Keeps(fmt, dbs[h]),
                 src |-> dbs[h]])
(* A save that fails leaves some of the new file or what was there before.  *)
SaveFails(h, k, p, fmt) ==
    /\ h \in DOMAIN dbs /\ k \in DOMAIN keys
    /\ Place(p, [fmt |-> fmt, key |-> keys[k], state |-> "begun", out |-> "ok", content |-> Keeps(fmt, dbs[h]),
                 src |-> dbs[h], old |-> IF p \in DOMAIN files THEN <<files[p]>> ELSE <<>>])
SaveRefused(h, k, p) == h \in DOMAIN dbs /\ k \in DOMAIN keys /\ UNCHANGED vars
Damage(p, kind) == p \in DOMAIN files /\ files' = [files EXCEPT ![p].state = kind] /\ UNCHANGED <<dbs, keys>>
CopyFile(p, q) == p \in DOMAIN files /\ files' = Put(files, q, files[p]) /\ UNCHANGED <<dbs, keys>>
RemoveFile(p) == files' = [q \in DOMAIN files \ {p} |-> files[q]] /\ UNCHANGED <<dbs, keys>>

(* How loading may end.  got is the database shown if it ends with "ok".    *)
RECURSIVE EndsOf(_, _, _, _, _)
EndsOf(f, key, fmt, out, got) ==
    CASE f.state = "begun" -> \/ EndsOf([f EXCEPT !.state = "damaged"], key, fmt, out, got)
                              \/ f.old # <<>> /\ EndsOf(f.old[1], key, fmt, out, got)
      [] f.fmt # fmt -> out \notin {"ok"}
      [] f.state = "header" -> out \notin {"ok"}
      [] f.state = "whole" /\ f.key # key -> out = "Password"
      [] f.state = "whole" /\ f.out = "error" -> out \notin {"ok"}
      [] f.state = "whole" -> out = "ok" /\ Matches(fmt, got, f.content)
      [] f.state = "damaged" /\ f.key # key -> out \notin {"ok"}
      [] f.state = "damaged" -> out = "ok" => Matches(fmt, got, f.content)
Ends(p, k, fmt, out, got) ==
    IF p \notin DOMAIN files THEN out = "NotFound" ELSE EndsOf(files[p], keys[k], fmt, out, got)
RECURSIVE Contents(_)
Contents(f) == {f.content} \cup IF f.state = "begun" /\ f.old # <<>> THEN Contents(f.old[1]) ELSE {}
Load(p, k, h, fmt, out, got) ==
    /\ k \in DOMAIN keys
    /\ out \notin {"crash", "hang", "null", "other"}
    /\ Ends(p, k, fmt, out, got)
    /\ dbs' = IF out = "ok" THEN Put(dbs, h, got) ELSE dbs
    /\ UNCHANGED <<keys, files>>
=============================================================================
