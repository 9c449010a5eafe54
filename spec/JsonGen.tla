------------------------------- MODULE JsonGen -------------------------------
(***************************************************************************)
(* Writing the dump: texts are escaped character by character and members  *)
(* are joined with separators.  For all small entries and groups - every   *)
(* member present or not, every combination of ordinary and bookkeeping    *)
(* entries - and all short texts over characters that need care, reading   *)
(* what the writer wrote must give what was to be said.  The objects are   *)
(* printed and dumped by the library.                                      *)
(***************************************************************************)
EXTENDS JsonDump, Json, IOUtils
CONSTANTS Care, Careful, Contents
VARIABLES t, o
Hex(n) == IF n < 10 THEN 48 + n ELSE 87 + n
EscapeOf(b) == IF b \in {34, 92} THEN <<92, b>> ELSE IF b < 32 THEN <<92, 117, 48, 48, Hex(b \div 16), Hex(b % 16)>> ELSE <<b>>
Escaped(s) == FoldLeft(LAMBDA x, b : x \o EscapeOf(b), <<>>, s)
RECURSIVE Write(_)
Joined(ms) == FoldLeft(LAMBDA x, m : IF x = <<>> THEN m ELSE x \o <<44>> \o m, <<>>, ms)
Write(v) == CASE v.k = "s" -> <<34>> \o Escaped(v.v) \o <<34>>
              [] v.k = "n" -> v.v
              [] v.k = "a" -> <<91>> \o Joined([i \in DOMAIN v.m |-> Write(v.m[i])]) \o <<93>>
              [] v.k = "o" -> <<123>> \o Joined([i \in DOMAIN v.m |-> <<34>> \o v.m[i][1] \o <<34, 58>> \o Write(v.m[i][2])]) \o <<125>>
Texts(n) == UNION {[1..k -> Care] : k \in 0..n}
T2 == {<<>>, <<120>>}
W2 == {"0", "1409529600"}
E0 == [icon |-> <<48>>, title |-> <<>>, url |-> <<>>, user |-> <<>>, pass |-> <<>>, notes |-> <<>>, ct |-> "0", mt |-> "0", at |-> "0", et |-> "0", att |-> <<>>]
A0 == [name |-> <<120>>, data |-> <<121>>]
Atts == {<<>>} \cup {<<[name |-> n, data |-> d]>> : n \in T2, d \in T2} \cup {<<A0, [A0 EXCEPT !.name = <<>>]>>}
Entries == {[E0 EXCEPT !.title = a, !.url = b, !.user = c, !.pass = d, !.notes = e] : a \in T2, b \in T2, c \in T2, d \in T2, e \in T2}
      \cup {[E0 EXCEPT !.ct = a, !.mt = b, !.at = c, !.et = d, !.att = x] : a \in W2, b \in W2, c \in W2, d \in W2, x \in Atts}
M0 == [E0 EXCEPT !.title = Bytes("Meta-Info"), !.url = Bytes("$"), !.user = Bytes("SYSTEM"), !.notes = <<120>>, !.att = <<[name |-> Bytes("bin-stream"), data |-> <<121>>]>>]
(* Bookkeeping entries and ones that lack one of the signs.                 *)
Metas == {M0, [M0 EXCEPT !.title = <<>>], [M0 EXCEPT !.title = Bytes("Meta-Info2")], [M0 EXCEPT !.title = Bytes("meta-Info")], [M0 EXCEPT !.url = Bytes("$$")],
          [M0 EXCEPT !.url = <<>>], [M0 EXCEPT !.user = Bytes("SYSTEm")], [M0 EXCEPT !.user = <<>>], [M0 EXCEPT !.notes = <<>>],
          [M0 EXCEPT !.notes = Bytes("$")], [M0 EXCEPT !.att = <<>>], [M0 EXCEPT !.att = <<A0>>], [M0 EXCEPT !.att = <<A0, M0.att[1]>>],
          [M0 EXCEPT !.att[1].data = <<>>], [M0 EXCEPT !.att = M0.att \o <<A0>>], [M0 EXCEPT !.att[1].name = Bytes("bin-streams")],
          [M0 EXCEPT !.icon = <<49>>], [M0 EXCEPT !.pass = <<120>>], [M0 EXCEPT !.ct = "1409529600"]}
P0 == [E0 EXCEPT !.title = <<112>>]
G0 == [icon |-> <<48>>, cicon |-> "none", name |-> <<>>, notes |-> <<>>, ct |-> "0", mt |-> "0", at |-> "0", et |-> "0", lt |-> "0", flags |-> <<48>>, groups |-> <<>>, entries |-> <<>>]
G1 == [G0 EXCEPT !.cicon = "some", !.name = <<110>>, !.notes = <<111>>, !.lt = "1409529600", !.flags = <<49>>]
Lists(S, n) == UNION {[1..k -> S] : k \in 0..n}
Scalars == {[G0 EXCEPT !.icon = i, !.cicon = a, !.name = b, !.notes = c, !.flags = f] : i \in {<<48>>, <<54, 57>>}, a \in {"none", "some"}, b \in T2, c \in T2, f \in {<<48>>, <<50>>}}
      \cup {[G0 EXCEPT !.ct = a, !.mt = b, !.at = c, !.et = d, !.lt = e] : a \in W2, b \in W2, c \in W2, d \in W2, e \in W2}
Inner == {[G0 EXCEPT !.entries = e] : e \in Lists({P0, M0}, 1)} \cup {G1}
Groups == Scalars \cup {[g EXCEPT !.groups = gs, !.entries = es] : g \in {G0, G1}, gs \in Lists(Inner, 2), es \in Lists({P0, M0}, Contents)}
          \cup {[G0 EXCEPT !.entries = <<m>>] : m \in Metas}
Init == \/ t = "att" /\ o \in {[E0 EXCEPT !.att = <<[name |-> n, data |-> d]>>] : n \in Texts(Careful), d \in Texts(1)}
        \/ t = "entry" /\ o \in Entries \cup Metas
        \/ t = "group" /\ o \in Groups
Next == UNCHANGED <<t, o>>
Spec == Init /\ [][Next]_<<t, o>>
Zone == "CET"
Meant == IF t = "group" THEN Group(Zone, o) ELSE Entry(Zone, o)
Right == LET v == Value(Write(Meant)) IN v # Bad /\ v = Meant /\ Says(v, Meant)
(* Nothing less than the whole text is accepted.                            *)
Whole == LET w == Write(Meant) IN \A n \in {0, 1, Len(w) \div 2, Len(w) - 1} : Value(SubSeq(w, 1, n)) = Bad
Emit == "EMIT" \in DOMAIN IOEnv => PrintT("@OBJ " \o t \o " " \o ToJson(o))
=============================================================================
