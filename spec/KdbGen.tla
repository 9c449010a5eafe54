------------------------------- MODULE KdbGen -------------------------------
(***************************************************************************)
(* Small KDB files, enumerated: sequences of group levels (well formed or  *)
(* skipping a generation) and entries naming groups (present or missing).  *)
(* The meaning of each must be the tree the level rule describes, and      *)
(* writing that tree and reading it back must give it again.               *)
(***************************************************************************)
EXTENDS KdbFormat, Json, IOUtils

CONSTANTS MaxGroups, MaxEntries, Skips
VARIABLES levels, owners       \* owners[k]: number of the group record entry k names; MaxGroups + 1 is missing
vars == <<levels, owners>>

Hex16(k) == "0000000000000000000000000000" \o Pad4(k)
Name(i) == "g" \o ToString(i)
GRec(i) == <<F4("1", ToString(100 + i)), FS("2", Name(i)), FT("3", "1409529600"), FT("4", "1"), FT("5", "60"), FT("6", "0"),
             F4("7", ToString(i)), F2("8", ToString(levels[i])), F2("9", "0"), FE>>
ERec(k) == <<FU(Hex16(k)), F4("2", ToString(100 + owners[k])), F4("3", "1"), FS("4", "e" \o ToString(k)), FS("5", ""), FS("6", ""),
             FS("7", "p"), FS("8", ""), FT("9", "1"), FT("10", "1"), FT("11", "1"), FT("12", "0"), FE>>
File == [sig0 |-> "9aa2d903", sig1 |-> "b54bfb65", flags |-> 3, ver |-> "000300", ng |-> Len(levels), ne |-> Len(owners), rest |-> "0",
         groups |-> [i \in 1..Len(levels) |-> GRec(i)], entries |-> [k \in 1..Len(owners) |-> ERec(k)],
         mseed |-> "m", iv |-> "i", tseed |-> "t", rounds |-> "1"]

Init == levels = <<>> /\ owners = <<>>
AddGroup == /\ Len(levels) < MaxGroups /\ owners = <<>>
            /\ \E v \in 0..(IF levels = <<>> THEN Skips ELSE levels[Len(levels)] + 1 + Skips) : levels' = Append(levels, v)
            /\ UNCHANGED owners
AddEntry == /\ Len(owners) < MaxEntries /\ levels # <<>>
            /\ \E i \in 1..Len(levels) \cup (IF Skips > 0 THEN {MaxGroups + 1} ELSE {}) : owners' = Append(owners, i)
            /\ UNCHANGED levels
Next == AddGroup \/ AddEntry
Spec == Init /\ [][Next]_vars

Good == Fault(File) = ""
WellFormed == /\ \A i \in 1..Len(levels) : levels[i] <= (IF i = 1 THEN 0 ELSE levels[i-1] + 1)
              /\ \A k \in 1..Len(owners) : owners[k] <= Len(levels)

RECURSIVE Pre(_, _), Post(_, _)
Pre(g, depth) == <<<<g.name, depth, [k \in 1..Len(g.entries) |-> g.entries[k].title]>>>> \o
                 FlattenSeq([i \in 1..Len(g.groups) |-> Pre(g.groups[i], depth + 1)])
Post(g, depth) == FlattenSeq([i \in 1..Len(g.groups) |-> Post(g.groups[i], depth + 1)]) \o <<<<g.name, depth>>>>

(* Refused exactly when malformed.                                          *)
Refuses == Good <=> WellFormed
(* The tree in preorder is the file's sequence of groups with their levels, *)
(* and every entry is in the group it names, in file order.                 *)
Describes == Good =>
    Tail(Pre(RootOf(File), -1)) =
        [i \in 1..Len(levels) |-> <<Name(i), levels[i],
            LET ks == SelectSeq([k \in 1..Len(owners) |-> k], LAMBDA k : owners[k] = i)
            IN [j \in 1..Len(ks) |-> "U:e" \o ToString(ks[j])]>>]
(* Writing it again.                                                        *)
RoundTrip == Good => LET d == DbOf(File) f == FileOf(d, 7) IN
                     /\ Fault(f) = "" /\ View(DbOf(f)) = View(d) /\ Matches(DbOf(f), View(d))
Emit == IF "EMIT" \in DOMAIN IOEnv THEN PrintT("@KDB " \o ToJson([levels |-> levels, owners |-> owners])) ELSE TRUE
=============================================================================
