-------------------------------- MODULE Fresh --------------------------------
(***************************************************************************)
(* Identifiers over the lives of several processes.  Objects get a fresh   *)
(* one when they are made, keep one that is set, and files keep what the   *)
(* objects had; every file has a fresh start sequence, which the reader    *)
(* compares.  drawn: everything ever drawn, by any process.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Own, MaxOps
VARIABLES drawn, objs, file, n, hist
(* Fresh identifiers are only compared: which one is drawn does not matter. *)
vars == <<drawn, objs, file, n, hist>>
NoFile == [start |-> 0, seen |-> 0, ids |-> <<>>]
Init == drawn = {} /\ objs = [p \in {1, 2} |-> <<>>] /\ file = NoFile /\ n = 0 /\ hist = <<>>
Op(x) == n < MaxOps /\ n' = n + 1 /\ hist' = Append(hist, x)
(* set: the identifier was chosen by the program.                           *)
Make(p) == /\ Len(objs[p]) < 2 /\ Op("make" \o ToString(p))
           /\ LET u == Cardinality(drawn) + 1 IN drawn' = drawn \cup {u} /\ objs' = [objs EXCEPT ![p] = Append(@, [id |-> u, set |-> FALSE])]
           /\ UNCHANGED file
Set(p) == /\ objs[p] # <<>> /\ Op("set" \o ToString(p))
          /\ \E i \in 1..Len(objs[p]), u \in Own : objs' = [objs EXCEPT ![p][i] = [id |-> u, set |-> TRUE]]
          /\ UNCHANGED <<drawn, file>>
Save(p) == /\ Op("save" \o ToString(p))
           /\ LET u == Cardinality(drawn) + 1 IN drawn' = drawn \cup {u} /\ file' = [start |-> u, seen |-> u, ids |-> objs[p]]
           /\ UNCHANGED objs
(* The start sequence is stored in the open and under the cipher.           *)
Tamper == file.start # 0 /\ file.start = file.seen /\ Op("tamper") /\ file' = [file EXCEPT !.seen = 0] /\ UNCHANGED <<drawn, objs>>
Load(p) == /\ file.start # 0 /\ Op("load" \o ToString(p))
           /\ objs' = (IF file.start = file.seen THEN [objs EXCEPT ![p] = file.ids] ELSE objs)
           /\ UNCHANGED <<drawn, file>>
Restart(p) == objs[p] # <<>> /\ Op("restart" \o ToString(p)) /\ objs' = [objs EXCEPT ![p] = <<>>] /\ UNCHANGED <<drawn, file>>
Next == \/ Tamper \/ \E p \in {1, 2} : Make(p) \/ Set(p) \/ Save(p) \/ Load(p) \/ Restart(p)
Spec == Init /\ [][Next]_vars
(* Two objects of one process have different identifiers unless a program   *)
(* chose them.                                                              *)
Distinct == \A p \in {1, 2} : \A i, j \in 1..Len(objs[p]) : i # j /\ ~objs[p][i].set /\ ~objs[p][j].set => objs[p][i].id # objs[p][j].id
(* Between processes an identifier is met twice only through a file.        *)
Traceable == (\A i \in 1..n : hist[i] \notin {"load1", "load2"}) =>
    \A i \in 1..Len(objs[1]), j \in 1..Len(objs[2]) : ~objs[1][i].set /\ ~objs[2][j].set => objs[1][i].id # objs[2][j].id
StartFresh == file.start # 0 => \A p \in {1, 2} : \A i \in 1..Len(objs[p]) : objs[p][i].id # file.start
Emit == (n = MaxOps /\ "EMIT" \in DOMAIN IOEnv) => PrintT("@RUN " \o ToJson(hist))
=============================================================================
