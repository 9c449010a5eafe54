-------------------------------- MODULE RefGen --------------------------------
(***************************************************************************)
(* References in a KDBX document.  A loader passes through the document in *)
(* document order - the metadata may come first or last - meeting objects  *)
(* and names of objects, and afterwards joins them: each reference ends as *)
(* the object of the loaded tree that carries the name, or dangles if      *)
(* there is none.  The assignments are printed and replayed against the    *)
(* library.                                                                *)
(*                                                                         *)
(* Targets: groups "r" (the root), "a", "b" (in a), "c"; entries "e0",     *)
(* "e1" of the root and "a0", "a1" of a; icons "i0", "i1"; "other" (of     *)
(* another kind), "unknown", "zero" (a UUID of zeros), "empty" and         *)
(* "absent" (no element).                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Busy,                                   \* how many references are set at once
          Focus                                   \* "groups", "entries" or "icons"
VARIABLES ref, metafirst, step, met, named, joined

Gs == {"r", "a", "b", "c"}
None == {"other", "unknown", "zero", "empty"}
Places == CASE Focus = "groups" -> {"rb", "tmpl", "lsg", "lvg"}
            [] Focus = "entries" -> {"r", "a", "b"}
            [] Focus = "icons" -> {"r", "a", "e0", "a1", "h"}          \* h: a history version of e0
Targets == CASE Focus = "groups" -> Gs \cup None
             [] Focus = "entries" -> {"e0", "e1", "a0", "a1"} \cup None
             [] Focus = "icons" -> {"i0", "i1"} \cup None
(* Where the objects and the names stand.                                   *)
MetaPart == CASE Focus = "groups" -> <<"rb", "tmpl", "lsg", "lvg">> [] Focus = "entries" -> <<>> [] Focus = "icons" -> <<"=i0", "=i1">>
RootPart == CASE Focus = "groups" -> <<"=r", "=a", "=b", "=c">>
              [] Focus = "entries" -> <<"r", "=e0", "=e1", "a", "=a0", "=a1", "b">>
              [] Focus = "icons" -> <<"r", "e0", "h", "a", "a1">>
Walk == IF metafirst THEN MetaPart \o RootPart ELSE RootPart \o MetaPart
Tree == CASE Focus = "groups" -> Gs [] Focus = "entries" -> {"e0", "e1", "a0", "a1"} [] Focus = "icons" -> {"i0", "i1"}
(* An entry can only be the last visible one of its own group.              *)
Own(p, t) == Focus = "entries" => CASE p = "r" -> t \in {"e0", "e1"} [] p = "a" -> t \in {"a0", "a1"} [] OTHER -> FALSE

vars == <<ref, metafirst, step, met, named, joined>>
Init == /\ \E S \in SUBSET Places : /\ Cardinality(S) <= Busy
                                     /\ \E f \in [S -> Targets] : ref = [p \in Places |-> IF p \in S THEN f[p] ELSE "absent"]
        /\ metafirst \in BOOLEAN
        /\ step = 1 /\ met = {} /\ named = <<>> /\ joined = [p \in Places |-> "none"]
Meet == /\ step <= Len(Walk)
        /\ LET x == Walk[step] IN
           IF SubSeq(x, 1, 1) = "=" THEN met' = met \cup {SubSeq(x, 2, Len(x))} /\ UNCHANGED named
           ELSE IF ref[x] \in {"absent", "empty"} THEN UNCHANGED <<met, named>>
           ELSE named' = Append(named, <<x, ref[x]>>) /\ UNCHANGED met
        /\ step' = step + 1 /\ UNCHANGED <<ref, metafirst, joined>>
Join == /\ step = Len(Walk) + 1
        /\ joined' = [p \in Places |->
              IF \E i \in 1..Len(named) : named[i][1] = p /\ named[i][2] \in met /\ Own(p, named[i][2]) THEN ref[p] ELSE "none"]
        /\ step' = step + 1 /\ UNCHANGED <<ref, metafirst, met, named>>
Next == Meet \/ Join
Right == step = Len(Walk) + 2 => \A p \in Places : joined[p] = IF ref[p] \in Tree /\ Own(p, ref[p]) THEN ref[p] ELSE "none"
Never == \A p \in Places : joined[p] \in {"none", ref[p]}
Emit == (step = 1 /\ "EMIT" \in DOMAIN IOEnv) => PrintT("@REF " \o ToJson([ref |-> ref, metafirst |-> metafirst]))
=============================================================================
