------------------------------ MODULE KdbxGen -------------------------------
(***************************************************************************)
(* Small KDBX databases, enumerated.  A database is a rich base in which   *)
(* up to MaxEdits fields are given other values of their domains.  In each *)
(* of them the two halves of the format must fit: reading the document     *)
(* written for a database gives back what the format can hold of it.  The  *)
(* databases are printed and replayed against the library.                 *)
(***************************************************************************)
EXTENDS KdbxFormat, Json, IOUtils

CONSTANT MaxEdits
VARIABLES d, n, last

Hex16(k) == "000000000000000000000000000000" \o (IF k < 10 THEN "0" ELSE "") \o ToString(k)
H32 == Hex16(11) \o Hex16(22)
Auto == [en |-> "true", ob |-> "1", seq |-> "{TAB}", assoc |-> <<[w |-> "w1", s |-> "s1"], [w |-> "w2", s |-> ""]>>]
E0 == [uuid |-> Hex16(31), icon |-> "7", cicon |-> "i:1", title |-> "U:t", url |-> "U:u", user |-> "P:n", pass |-> "P:secret",
       notes |-> "U:x", ovr |-> "o", tags |-> "a;b", bg |-> "c1", fg |-> "c2", ct |-> "1409529600", mt |-> "59", at |-> "86400",
       et |-> "0", lt |-> "951782400", expires |-> "true", usage |-> "3", auto |-> Auto,
       att |-> <<[name |-> "f1", bin |-> "b:0", data |-> "U:plain", compress |-> "false"],
                 [name |-> "f2", bin |-> "b:2", data |-> "P:hidden", compress |-> "false"],
                 [name |-> "f3", bin |-> "own", data |-> "P:inline", compress |-> "false"]>>,
       hist |-> <<>>, fields |-> <<[k |-> "k1", v |-> "U:v1"], [k |-> "k2", v |-> "P:v2"]>>]
E1 == [E0 EXCEPT !.uuid = Hex16(32), !.cicon = "none", !.att = <<>>, !.fields = <<>>, !.pass = "P:old",
                 !.auto = [Auto EXCEPT !.assoc = <<>>]]
E2 == [E0 EXCEPT !.hist = <<E1, [E0 EXCEPT !.title = "P:before"]>>]
G0 == [uuid |-> Hex16(41), icon |-> "48", cicon |-> "none", name |-> "g", notes |-> "gn", ct |-> "1", mt |-> "60", at |-> "3600",
       et |-> "0", lt |-> "86399", flags |-> "0", expires |-> "false", expanded |-> "true", usage |-> "0", seq |-> "",
       autotype |-> "true", search |-> "false", last |-> "none", groups |-> <<>>, entries |-> <<>>]
G1 == [G0 EXCEPT !.uuid = Hex16(42), !.name = "in", !.entries = <<[E1 EXCEPT !.uuid = Hex16(33)]>>, !.cicon = "i:0"]
G2 == [G0 EXCEPT !.uuid = Hex16(43), !.groups = <<G1>>]
Root == [G0 EXCEPT !.name = "root", !.groups = <<G2, [G0 EXCEPT !.uuid = Hex16(44)]>>, !.entries = <<E2, [E1 EXCEPT !.uuid = Hex16(34)]>>,
                   !.last = "e:/0"]
Meta == [present |-> "true", gen |-> "KeePass", name |-> "db", namet |-> "1409529600", desc |-> "d", desct |-> "1", user |-> "me",
         usert |-> "2", mhd |-> "30", color |-> "", mkc |-> "3", mkcr |-> "182", mkcf |-> "-1",
         mp |-> [title |-> "false", user |-> "false", pass |-> "true", url |-> "false", notes |-> "true"],
         rb |-> "g:1", rbt |-> "4", tmpl |-> "none", tmplt |-> "5", hmi |-> "10", hms |-> "6291456", lsg |-> "g:0", lvg |-> "g:0.0",
         bins |-> <<[data |-> "U:plain", compress |-> "false"], [data |-> "U:zip", compress |-> "true"], [data |-> "P:hidden", compress |-> "false"]>>,
         icons |-> <<[uuid |-> Hex16(61), data |-> "png"], [uuid |-> Hex16(62), data |-> "gif"]>>,
         fields |-> <<[k |-> "ck", v |-> "cv"]>>]
Base == [cipher |-> "aes", mseed |-> H32, iv |-> Hex16(9), tseed |-> H32, rkey |-> H32, rounds |-> "2", compress |-> "false",
         meta |-> Meta, root |-> Root]

Texts == {"", "%00", "a"}
XTexts == {"", "a", "%c3a9", "%610a62", "<&>", "%5c", "]]>"}
PTexts == {"U:", "P:", "U:a", "P:a", "P:%00ff", "U:%c3a5"}
Times == {"0", "1", "951868799", "4294967296", "253402300799"}
Bools == {"true", "false"}
U32s == {"0", "4294967295"}
I64s == {"-1", "0", "9223372036854775807", "-9223372036854775808"}
Colors == {"", "red"}
Grefs == {"none", "g:", "g:0", "g:0.0", "g:1"}

(* One edit: <<place, field, value>>; the place selects an object.          *)
EField == [title |-> PTexts, url |-> PTexts, user |-> PTexts, pass |-> PTexts, notes |-> PTexts, ovr |-> XTexts, tags |-> XTexts,
           bg |-> Colors, fg |-> Colors, ct |-> Times, mt |-> Times, at |-> Times, et |-> Times, lt |-> Times, expires |-> Bools,
           usage |-> U32s, icon |-> U32s, cicon |-> {"none", "i:0", "i:1"},
           auto |-> {[Auto EXCEPT !.en = "false"], [Auto EXCEPT !.ob = "4294967295"], [Auto EXCEPT !.seq = ""], [Auto EXCEPT !.assoc = <<>>]},
           att |-> {<<>>, <<[name |-> "", bin |-> "b:1", data |-> "U:zip", compress |-> "true"]>>,
                    <<[name |-> "x", bin |-> "own", data |-> "U:%0001", compress |-> "false"]>>},
           hist |-> {<<>>, <<E1>>, <<E1, E1, E1>>, <<[E1 EXCEPT !.hist = <<E1>>]>>},
           fields |-> {<<>>, <<[k |-> "", v |-> "U:"]>>, <<[k |-> "k", v |-> "P:"], [k |-> "k", v |-> "U:z"]>>}]
GField == [name |-> XTexts, notes |-> XTexts, seq |-> XTexts, icon |-> U32s, cicon |-> {"none", "i:0", "i:1"}, ct |-> Times, mt |-> Times,
           at |-> Times, et |-> Times, lt |-> Times, expires |-> Bools, expanded |-> Bools, usage |-> U32s, autotype |-> Bools,
           search |-> Bools, groups |-> {<<>>, <<G1>>}, entries |-> {<<>>, <<E2>>}, last |-> {"none"}]
MField == [gen |-> XTexts, name |-> XTexts, namet |-> Times, desc |-> XTexts, desct |-> Times, user |-> XTexts, usert |-> Times,
           mhd |-> U32s, color |-> Colors, mkc |-> Times, mkcr |-> I64s, mkcf |-> I64s, rb |-> Grefs, rbt |-> Times, tmpl |-> Grefs,
           tmplt |-> Times, hmi |-> {"-1", "0", "2147483647", "-2147483648"}, hms |-> I64s, lsg |-> Grefs, lvg |-> Grefs,
           mp |-> [title : Bools, user : Bools, pass : Bools, url : Bools, notes : Bools],
           fields |-> {<<>>, <<[k |-> "a", v |-> ""], [k |-> "a", v |-> "b"]>>, <<[k |-> "", v |-> "lost"]>>}]
DField == [rounds |-> {"0", "1", "5"}, compress |-> Bools, iv |-> {Zero16}, mseed |-> {"", "00", Hex16(5)}]

SetEntry(db, w, f, v) ==
    CASE w = 1 -> [db EXCEPT !.root.entries[1][f] = v]
      [] w = 2 -> [db EXCEPT !.root.entries[1].hist[1][f] = v]
      [] w = 3 -> [db EXCEPT !.root.groups[1].groups[1].entries[1][f] = v]
EntryThere(db, w) ==
    CASE w = 1 -> Len(db.root.entries) > 0
      [] w = 2 -> Len(db.root.entries) > 0 /\ Len(db.root.entries[1].hist) > 0
      [] w = 3 -> Len(db.root.groups) > 0 /\ Len(db.root.groups[1].groups) > 0 /\ Len(db.root.groups[1].groups[1].entries) > 0
(* Only edits that keep references meaningful.                              *)
RefsOk(db) == LET There(r) == LET p == IF r = "none" THEN "" ELSE SubSeq(r, 3, Len(r)) IN
                       /\ (p \in {"0", "0.0", "1"} => Len(db.root.groups) > (IF p = "1" THEN 1 ELSE 0))
                       /\ (p = "0.0" => Len(db.root.groups[1].groups) > 0)
              IN /\ There(db.meta.rb) /\ There(db.meta.tmpl) /\ There(db.meta.lsg) /\ There(db.meta.lvg)
                 /\ db.root.last = "none" \/ Len(db.root.entries) > 0

Init == d = Base /\ n = 0 /\ last = <<>>
Put(db, e) == n < MaxEdits /\ RefsOk(db) /\ d' = db /\ n' = n + 1 /\ last' = e
EditEntry == \E w \in {1, 2, 3}, f \in DOMAIN EField : \E v \in EField[f] :
                /\ EntryThere(d, w)
                /\ Put(SetEntry(d, w, f, v), <<"entry", w, f>>)
EditGroup == \E f \in DOMAIN GField : \E v \in GField[f] :
                \/ Put([d EXCEPT !.root[f] = v], <<"root", f>>)
                \/ Len(d.root.groups) > 0 /\ Put([d EXCEPT !.root.groups[1][f] = v], <<"group", f>>)
EditMeta == \E f \in DOMAIN MField : \E v \in MField[f] : Put([d EXCEPT !.meta[f] = v], <<"meta", f>>)
EditDb == \E f \in DOMAIN DField : \E v \in DField[f] : Put([d EXCEPT ![f] = v], <<"db", f>>)
Next == EditEntry \/ EditGroup \/ EditMeta \/ EditDb

Doc == Render(XmlOf(d, "hash"))
RoundTrip == /\ Fault(Doc, "hash") = ""
             /\ LET got == Contents(Doc) v == View(d) IN
                \/ got = [meta |-> v.meta, root |-> v.root]
                \/ PrintT(ToJson([got |-> got, want |-> v])) /\ FALSE
Saves == Says(Doc, XmlOf(d, "hash"))
Stable == View(View(d)) = View(d)
Emit == IF "EMIT" \in DOMAIN IOEnv THEN PrintT("@DB " \o ToJson(d)) ELSE TRUE
=============================================================================
