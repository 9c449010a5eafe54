----------------------------- MODULE RobustTrace -----------------------------
(***************************************************************************)
(* Recorded imports of arbitrary files and uses of what they return.       *)
(*   sound   a file known to be well formed and what it holds              *)
(*   import  of a file with faults: it ends with a database or an          *)
(*           exception derived from std::exception, in time                *)
(*   use     dump, comparison with itself and save of a database that was  *)
(*           returned                                                      *)
(*   again   the sound file once more: nothing of the malformed ones stays *)
(***************************************************************************)
EXTENDS TraceBase
VARIABLES held, sound           \* what import returned last; content of the sound file
Dead == {"crash", "hang", "null", "other"}       \* signal or abort; no answer; no database; not a std::exception

Sound(e) == /\ Eq("sound file", e.out, "ok") /\ sound' = e.proj /\ held' = "db"
Import(e) == /\ Chk("import of a malformed file", e.out \notin Dead, [out |-> e.out, what |-> e.what, faults |-> e.faults])
             /\ held' = IF e.out = "ok" THEN "db" ELSE "none"
             /\ UNCHANGED sound
Use(e) == /\ held = "db"
          /\ Chk("use of a database from a malformed file",
                 e.out \notin Dead /\ e.json \notin Dead /\ e.save \notin Dead /\ e.eq \in {"true", "none"},
                 [out |-> e.out, json |-> e.json, save |-> e.save, eq |-> e.eq, what |-> e.what, faults |-> e.faults])
          /\ UNCHANGED <<held, sound>>
Again(e) == /\ Eq("sound file after malformed ones", [out |-> e.out, proj |-> e.proj], [out |-> "ok", proj |-> sound])
            /\ held' = "db" /\ UNCHANGED sound

Init == Start /\ held = "none" /\ sound = ""
Next == /\ More /\ Advance
        /\ LET e == Ev[l] IN CASE e.e = "sound" -> Sound(e) [] e.e = "import" -> Import(e) [] e.e = "use" -> Use(e) [] e.e = "again" -> Again(e)
=============================================================================
