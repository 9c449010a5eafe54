------------------------------ MODULE JsonDump -------------------------------
(***************************************************************************)
(* What the dump of a group or an entry has to say.  Texts are bytes,      *)
(* numbers decimal texts, times decimal seconds ("0": none).               *)
(***************************************************************************)
EXTENDS JsonText, Calendar, FiniteSets
(* ASCII *)
Chars == <<" ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9",
           ":", ";", "<", "=", ">", "?", "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S",
           "T", "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "_", "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m",
           "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
Ascii == [c \in {Chars[i] : i \in DOMAIN Chars} |-> 31 + CHOOSE i \in DOMAIN Chars : Chars[i] = c]
Bytes(s) == [i \in 1..Len(s) |-> Ascii[SubSeq(s, i, i)]]
Str(v) == [k |-> "s", v |-> v]
Num(v) == [k |-> "n", v |-> v]
(* Times are shown in the local zone.                                       *)
LocalText(zone, t) ==
    LET m == MomentOf(t)
        x == Shift(m[1], m[2], EastOf(zone, m[1], m[2]))
        c == CivilOf(x[1])
    IN Pad4(c[1]) \o "-" \o Pad2(c[2]) \o "-" \o Pad2(c[3]) \o " " \o Pad2(x[2] \div 3600) \o ":" \o Pad2((x[2] % 3600) \div 60) \o ":" \o Pad2(x[2] % 60)
If(cond, name, v) == IF cond THEN <<<<Bytes(name), v>>>> ELSE <<>>
Text(name, b) == If(Len(b) > 0, name, Str(b))
Time(zone, name, t) == If(t # "0", name, Str(Bytes(LocalText(zone, t))))
Times(zone, o) == Time(zone, "creation_time", o.ct) \o Time(zone, "modification_time", o.mt) \o Time(zone, "access_time", o.at) \o Time(zone, "expiry_time", o.et)
Obj(ms) == [k |-> "o", m |-> ms]
Att(a) == Obj(Text("name", a.name) \o Text("data", a.data))
(* Entries in which the KDB format keeps its own records.                   *)
IsMeta(e) == /\ e.title = Bytes("Meta-Info") /\ e.user = Bytes("SYSTEM") /\ e.url = Bytes("$") /\ Len(e.notes) > 0
             /\ \E i \in DOMAIN e.att : e.att[i].name = Bytes("bin-stream")
Entry(zone, e) ==
    Obj(<<<<Bytes("icon"), Num(e.icon)>>>> \o Text("title", e.title) \o Text("url", e.url) \o Text("username", e.user)
        \o Text("password", e.pass) \o Text("notes", e.notes) \o Times(zone, e)
        \o FoldLeft(LAMBDA s, a : s \o <<<<Bytes("attachment"), Att(a)>>>>, <<>>, e.att))
RECURSIVE Group(_, _)
Group(zone, g) ==
    LET es == SelectSeq(g.entries, LAMBDA e : ~IsMeta(e)) IN
    Obj(<<<<Bytes("icon"), Num(g.icon)>>>> \o If(g.cicon # "none", "custom_icon", Str(<<49>>))
        \o Text("name", g.name) \o Text("notes", g.notes) \o Times(zone, g) \o Time(zone, "move_time", g.lt)
        \o If(g.flags # <<48>>, "flags", Num(g.flags))
        \o If(g.groups # <<>>, "groups", [k |-> "a", m |-> [i \in 1..Len(g.groups) |-> Group(zone, g.groups[i])]])
        \o If(es # <<>>, "entries", [k |-> "a", m |-> [i \in 1..Len(es) |-> Entry(zone, es[i])]]))
(* Two values say the same: members of an object may come in any order,     *)
(* except the ones of one name among themselves.                            *)
RECURSIVE Says(_, _)
Says(x, y) ==
    /\ x.k = y.k
    /\ CASE x.k = "o" -> LET at(o, n) == SelectSeq(o.m, LAMBDA p : p[1] = n) IN
                         /\ Len(x.m) = Len(y.m)
                         /\ \A n \in {x.m[i][1] : i \in DOMAIN x.m} :
                               LET p == at(x, n) q == at(y, n) IN Len(p) = Len(q) /\ \A i \in DOMAIN p : Says(p[i][2], q[i][2])
         [] x.k = "a" -> Len(x.m) = Len(y.m) /\ \A i \in DOMAIN x.m : Says(x.m[i], y.m[i])
         [] x.k = "bad" -> FALSE
         [] OTHER -> x.v = y.v
=============================================================================
