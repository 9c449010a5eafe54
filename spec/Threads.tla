------------------------------ MODULE Threads -------------------------------
(***************************************************************************)
(* Calls of the library in several threads at the same time.  A call takes *)
(* its argument, works with intermediate values it keeps somewhere, and    *)
(* answers.  Threads may use the same databases, keys and files as long as *)
(* nobody changes them; what they change is their own.  A call must answer *)
(* as it would alone, in every interleaving; this is so if every place a   *)
(* call keeps something in belongs to its thread (Process = FALSE), and it *)
(* is not if some places belong to the process (as the results of          *)
(* localtime() do).                                                        *)
(* The pairs of calls that meet are the runs performed with the real code. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Threads, Kinds, Calls, Process
VARIABLES call, pc, place, answer, done, met

(* kinds of calls that change an object; only one of their own              *)
Changing == {"edit", "key"}
Args(kind) == IF kind \in Changing THEN {"own"} ELSE {"own", "shared"}
(* What object a thread means, and what a call alone makes of it.           *)
Object(t, arg) == IF arg = "shared" THEN 0 ELSE t
Alone(c, t) == <<c.kind, Object(t, c.arg)>>
Where(t) == IF Process THEN 0 ELSE t
Idle == [kind |-> "none", arg |-> "own"]

Init == /\ call = [t \in Threads |-> Idle] /\ pc = [t \in Threads |-> "idle"]
        /\ place = [w \in Threads \cup {0} |-> <<>>] /\ answer = [t \in Threads |-> <<>>]
        /\ done = [t \in Threads |-> 0] /\ met = {}
Pair(t, c) == {<<<<call[u].kind, call[u].arg>>, <<c.kind, c.arg>>>> : u \in {v \in Threads \ {t} : pc[v] # "idle"}}
Start(t) == \E k \in Kinds : \E a \in Args(k) :
    LET c == [kind |-> k, arg |-> a] IN
    /\ pc[t] = "idle" /\ done[t] < Calls
    /\ call' = [call EXCEPT ![t] = c] /\ pc' = [pc EXCEPT ![t] = "begun"]
    /\ answer' = [answer EXCEPT ![t] = <<>>] /\ met' = Pair(t, c)
    /\ UNCHANGED <<place, done>>
Keep(t) == /\ pc[t] = "begun" /\ pc' = [pc EXCEPT ![t] = "kept"]
           /\ place' = [place EXCEPT ![Where(t)] = Alone(call[t], t)]
           /\ met' = {} /\ UNCHANGED <<call, answer, done>>
Answer(t) == /\ pc[t] = "kept" /\ pc' = [pc EXCEPT ![t] = "idle"]
             /\ answer' = [answer EXCEPT ![t] = place[Where(t)]]
             /\ done' = [done EXCEPT ![t] = @ + 1]
             /\ met' = {} /\ UNCHANGED <<call, place>>
Next == \E t \in Threads : Start(t) \/ Keep(t) \/ Answer(t)
Spec == Init /\ [][Next]_<<call, pc, place, answer, done, met>>

AsAlone == \A t \in Threads : answer[t] # <<>> => answer[t] = Alone(call[t], t)
(* no two calls in progress use an object one of them changes               *)
Undisturbed == \A t, u \in Threads : t # u /\ pc[t] # "idle" /\ pc[u] # "idle" /\ call[t].kind \in Changing
                   => Object(t, call[t].arg) # Object(u, call[u].arg)
Emit == "EMIT" \in DOMAIN IOEnv => \A p \in met : PrintT("@MEET " \o ToJson(p))
View == <<call, pc, place, answer, [t \in Threads |-> IF pc[t] = "idle" THEN done[t] ELSE 0], met>>
=============================================================================
