----------------------------- MODULE SessionGen -----------------------------
(***************************************************************************)
(* Session over small abstract databases: checked for what a user counts   *)
(* on, and source of operation sequences replayed in the real library.     *)
(* A database is a number; a format cannot hold everything: format "y"     *)
(* keeps n as n - n % 2 and format "x" everything.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Handles, Keys, Paths, Values, Steps
VARIABLES dbs, keys, files, ops, made

Keeps(fmt, d) == IF fmt = "x" THEN d ELSE d - (d % 2)
Matches(fmt, got, want) == got = want
S == INSTANCE Session

Parts == [k \in Keys |-> <<k>>]
Init == /\ dbs = [h \in Handles |-> 1] /\ keys = Parts /\ files = <<>> /\ ops = <<>> /\ made = {1}

Op(o) == ops' = Append(ops, o)
New(h, v) == S!New(h, v) /\ made' = made \cup {v} /\ Op(<<"new", h, ToString(v)>>)
Edit(h, v) == v # dbs[h] /\ S!New(h, v) /\ made' = made \cup {v} /\ Op(<<"edit", h, ToString(v)>>)
Save(h, k, p, f) == S!Save(h, k, p, f) /\ UNCHANGED made /\ Op(<<"save", h, k, p, f>>)
FailSave(h, k, p, f) == S!SaveFails(h, k, p, f) /\ UNCHANGED made /\ Op(<<"failsave", h, k, p, f>>)
RefuseSave(h, k, f) == S!SaveRefused(h, k, "nowhere") /\ UNCHANGED made /\ Op(<<"nosave", h, k, f>>)
Load(p, k, h, f) ==
    \E out \in {"ok", "Password", "error", "NotFound"}, got \in {Keeps(g, v) : g \in {"x", "y"}, v \in made} :
        /\ S!Load(p, k, h, f, out, got)
        /\ UNCHANGED made
        /\ Op(<<"load", p, k, h, f>>)
Damage(p, kind) == /\ p \in DOMAIN files /\ (kind = "header" => files[p].fmt = "x") /\ S!Damage(p, kind)
                   /\ UNCHANGED made /\ Op(<<"damage", p, kind>>)
Copy(p, q) == p # q /\ S!CopyFile(p, q) /\ UNCHANGED made /\ Op(<<"copy", p, q>>)
Remove(p) == p \in DOMAIN files /\ S!RemoveFile(p) /\ UNCHANGED made /\ Op(<<"remove", p>>)

Next == Len(ops) < Steps /\
    \/ \E h \in Handles, v \in Values : New(h, v) \/ Edit(h, v)
    \/ \E h \in Handles, k \in Keys, p \in Paths, f \in {"x", "y"} : Save(h, k, p, f) \/ FailSave(h, k, p, f) \/ Load(p, k, h, f)
    \/ \E h \in Handles, k \in Keys, f \in {"x", "y"} : RefuseSave(h, k, f)
    \/ \E p \in Paths : Remove(p) \/ (\E q \in Paths : Copy(p, q)) \/ \E kind \in {"damaged", "header"} : Damage(p, kind)
(* One random step, with the useful operations more likely.                 *)
R(s) == RandomElement(s)
Sample == Len(ops) < Steps /\
    LET there == DOMAIN files
        good == {g \in there : files[g].state = "whole"}
    IN \E kind \in {R(1..20)}, h \in {R(Handles)}, k \in {R(Keys)}, p \in {R(Paths)}, q \in {R(Paths)}, f \in {R({"x", "y"})},
          t \in {IF there = {} THEN "none" ELSE R(there)} :
       \E g \in {IF good = {} THEN t ELSE R(good)} :
       \E owner \in {IF there = {} THEN k ELSE CHOOSE j \in Keys : keys[j] = files[g].key} :
       CASE kind = 1 -> New(h, R(Values))
         [] kind \in {2, 3} -> Edit(h, R(Values \ {dbs[h]}))
         [] kind \in 4..8 -> Save(h, k, p, f)
         [] kind = 9 -> FailSave(h, k, p, f)
         [] kind = 10 -> RefuseSave(h, k, f)
         [] kind \in 11..15 /\ there # {} -> Load(g, owner, h, files[g].fmt)
         [] kind = 16 /\ there # {} -> Load(t, k, h, f)
         [] kind = 17 /\ there # {} -> Damage(t, IF files[t].fmt = "x" THEN R({"damaged", "header"}) ELSE "damaged")
         [] kind = 18 /\ there # {} /\ t # q -> Copy(t, q)
         [] kind = 19 /\ there # {} -> Remove(t)
         [] kind = 20 -> Load(p, k, h, f)
         [] OTHER -> Save(h, k, p, f)
SampleSpec == Init /\ [][Sample]_<<S!vars, ops, made>>
Spec == Init /\ [][Next]_<<S!vars, ops, made>>

(* What a user counts on.                                                   *)
Held == \A h \in Handles : \E v \in made : dbs[h] \in {v, v - (v % 2)}
NoInvention == [][\A h \in Handles : dbs'[h] # dbs[h] =>
    \/ \E n \in DOMAIN ops' \ DOMAIN ops : ops'[n][1] \in {"new", "edit"}
    \/ \E p \in DOMAIN files : dbs'[h] \in S!Contents(files[p]) /\ files[p].state # "header"]_dbs
SavedMeansKept == [][\A p \in DOMAIN files' :
    files'[p].state = "whole" /\ (p \notin DOMAIN files \/ files'[p] # files[p]) =>
        \/ \E h \in Handles : files'[p].content = Keeps(files'[p].fmt, dbs[h])
        \/ \E q \in DOMAIN files : files'[p] = files[q]]_files
OthersKept == [][Cardinality({p \in DOMAIN files \cap DOMAIN files' : files'[p] # files[p]}) <= 1]_files
KeysKept == [][keys' = keys]_keys
Emit == Len(ops) = Steps /\ "EMIT" \in DOMAIN IOEnv => PrintT("@OPS " \o ToJson(ops))
View == <<dbs, files, made, Len(ops)>>
=============================================================================
