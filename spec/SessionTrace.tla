---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Recorded runs of the library, checked against Session with the real     *)
(* formats.  Each line of the trace file is one run: a sequence of events  *)
(* in the order in which the calls returned.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Trim, TimeZone
VARIABLES c, l, dbs, keys, files

X == INSTANCE KdbxFormat WITH TrimText <- Trim
K == INSTANCE KdbFormat WITH Zone <- TimeZone

(* Very deep trees are recorded flat: root is the sequence of their groups, *)
(* entries and history versions in preorder, each with its nesting depth.   *)
IsFlat(d) == "flat" \in DOMAIN d
FlatX(d) == [X!View([d EXCEPT !.root = d.root[1].v]) EXCEPT
                !.root = [i \in 1..Len(d.root) |-> [d.root[i] EXCEPT !.v = IF d.root[i].k = "g" THEN X!VGroup(@, "") ELSE X!VEntry(@)]]]
FlatK(d) == [K!View([d EXCEPT !.root = d.root[1].v]) EXCEPT
                !.root = [i \in 1..Len(d.root) |-> IF i = 1 THEN [d.root[1] EXCEPT !.v = K!BareRoot(<<>>)]
                             ELSE [d.root[i] EXCEPT !.v = IF d.root[i].k = "g" THEN K!VGroup(@) ELSE K!VEntry(@)]]] @@ [flat |-> "true"]
FlatSeen(d) == [d EXCEPT !.root = [i \in 1..Len(d.root) |-> IF d.root[i].k = "g" THEN [d.root[i] EXCEPT !.v = K!Anon(@)] ELSE d.root[i]]]

Keeps(fmt, d) == IF IsFlat(d) THEN (IF fmt = "kdbx" THEN FlatX(d) ELSE FlatK(d))
                 ELSE IF fmt = "kdbx" THEN X!View(d) ELSE K!View(d)
Matches(fmt, got, want) == IF fmt = "kdbx" THEN got = want
                           ELSE IF IsFlat(want) THEN FlatSeen(got) = want ELSE K!Matches(got, want)
S == INSTANCE Session

Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[c].ev

(* A condition that says so when it fails.                                  *)
Say(name, info) == PrintT("@FAIL " \o ToString(c) \o " " \o ToString(l) \o " " \o name \o " " \o ToJson(info))
Chk(name, cond, info) == IF cond THEN TRUE ELSE Say(name, info) /\ FALSE
Eq(name, got, want) == Chk(name, got = want, [got |-> got, want |-> want])

-----------------------------------------------------------------------------
(* Editing a database through the setters.                                  *)
RECURSIVE GroupOn(_, _), WithGroup(_, _, _)
GroupOn(g, path) == IF path = <<>> THEN g ELSE GroupOn(g.groups[path[1] + 1], Tail(path))
WithGroup(g, path, v) ==
    IF path = <<>> THEN v ELSE [g EXCEPT !.groups[path[1] + 1] = WithGroup(g.groups[path[1] + 1], Tail(path), v)]
EditedGroup(g, e) ==
    CASE e.t = "group" /\ e.f = "addgroup" -> [g EXCEPT !.groups = Append(@, e.v)]
      [] e.t = "group" /\ e.f = "addentry" -> [g EXCEPT !.entries = Append(@, e.v)]
      [] e.t = "group" -> [g EXCEPT ![e.f] = e.v]
      [] e.t = "entry" -> [g EXCEPT !.entries[e.i + 1][e.f] = e.v]
EditOf(db, e) ==
    CASE e.t = "db" -> [db EXCEPT ![e.f] = e.v]
      [] e.t = "meta" -> [db EXCEPT !.meta[e.f] = e.v]
      [] OTHER -> [db EXCEPT !.root = WithGroup(db.root, e.path, EditedGroup(GroupOn(db.root, e.path), e))]

-----------------------------------------------------------------------------
(* One event.                                                               *)
DoNew(e) == Eq("new database shows other values", e.proj, e.db) /\ S!New(e.h, e.proj)
DoKey(e) == S!SetKey(e.k, e.parts)
DoEdit(e) == /\ e.h \in DOMAIN dbs
             /\ LET v == EditOf(dbs[e.h], e) IN Eq("edited database shows other values", e.proj, v) /\ S!New(e.h, v)
DoShow(e) == e.h \in DOMAIN dbs /\ Eq("database changed by itself", e.proj, dbs[e.h]) /\ UNCHANGED <<dbs, keys, files>>
DoExport(e) ==
    /\ Chk("export failed", e.out = "ok", [out |-> e.out])
    /\ "proj" \in DOMAIN e => Eq("export changed the database", e.proj, dbs[e.h])
    /\ S!Save(e.h, e.k, e.p, e.fmt)
(* A save that had to fail: it must say so.                                 *)
DoBadExport(e) ==
    /\ Chk("failure to save not reported", e.out \in {"Io", "NotFound", "Format", "Internal", "std:bad_alloc"} \/ SubSeq(e.out, 1, 4) = "std:",
           [out |-> e.out])
    /\ Eq("failed export changed the database", e.proj, dbs[e.h])
    /\ IF e.there = "true" THEN S!SaveFails(e.h, e.k, e.p, e.fmt) ELSE S!SaveRefused(e.h, e.k, e.p)
(* A save that may fail; if it says it did not, the file must be whole.     *)
DoTryExport(e) ==
    /\ Eq("export changed the database", e.proj, dbs[e.h])
    /\ IF e.out = "ok" THEN S!Save(e.h, e.k, e.p, e.fmt)
       ELSE /\ Chk("export crashed", e.out \notin {"crash", "hang", "null", "other"}, [out |-> e.out])
            /\ IF e.there = "true" THEN S!SaveFails(e.h, e.k, e.p, e.fmt) ELSE S!SaveRefused(e.h, e.k, e.p)
DoImport(e) ==
    LET want == IF e.p \in DOMAIN files THEN files[e.p] ELSE [state |-> "absent"]
    IN /\ Chk("import", S!Ends(e.p, e.k, e.fmt, e.out, e.proj) /\ e.out \notin {"crash", "hang", "null", "other"},
              [out |-> e.out, what |-> e.what, got |-> e.proj, file |-> want])
       /\ S!Load(e.p, e.k, e.h, e.fmt, e.out, e.proj)

(* The file as an independent reader of the published format sees it.       *)
ReadX(e) == LET f == e.file
                x == X!XmlOf(files[e.p].src, f.hash)
                h == X!HeaderView(f)
                d == files[e.p].content
            IN /\ Chk("unreadable by an independent reader", f.bad = "", [layer |-> f.bad])
               /\ Chk("header", ~X!HeaderFault(f) /\ X!HeaderWritten(f), [ver |-> f.ver, hdr |-> f.hdr])
               /\ Chk("block framing", X!Framed(f.blocks) /\ f.rest = "0" /\ f.gzrest = "0",
                      [blocks |-> f.blocks, rest |-> f.rest, gzrest |-> f.gzrest])
               /\ Eq("header values", h, [cipher |-> d.cipher, mseed |-> d.mseed, iv |-> d.iv, tseed |-> d.tseed,
                                          rkey |-> d.rkey, rounds |-> d.rounds, compress |-> d.compress])
               /\ Chk("document", X!Says(f.tree, x), X!Differs(f.tree, x, ""))
               /\ Chk("document cannot be read back", X!Fault(f.tree, f.hash) = "", [why |-> X!Fault(f.tree, f.hash)])
               /\ Eq("document means another database", X!DbOf(f), d)
ReadK(e) == LET f == e.file IN
            /\ Chk("unreadable by an independent reader", f.bad = "", [layer |-> f.bad])
            /\ Chk("layout", K!Layout(f), [f EXCEPT !.groups = <<>>, !.entries = <<>>])
            /\ Chk("records", K!Fault(f) = "", [why |-> K!Fault(f)])
            /\ Eq("records mean another database", IF IsFlat(files[e.p].content) THEN K!FlatDbOf(f) ELSE K!DbOf(f), files[e.p].content)
DoRead(e) == /\ e.p \in DOMAIN files
             /\ IF e.fmt = "kdbx" THEN ReadX(e) ELSE ReadK(e)
             /\ UNCHANGED <<dbs, keys, files>>

(* A file somebody else wrote.                                              *)
DoGive(e) ==
    LET f == e.file
        out == IF e.fmt = "kdbx" THEN X!ImportOut(f) ELSE K!ImportOut(f)
    IN S!Place(e.p, [fmt |-> e.fmt, key |-> e.key, state |-> "whole", out |-> out,
                     src |-> <<>>, content |-> IF out # "ok" THEN <<>> ELSE IF e.fmt = "kdbx" THEN X!DbOf(f)
                                             ELSE IF IsFlat(f) THEN K!FlatDbOf(f) ELSE K!DbOf(f)])
DoDamage(e) == S!Damage(e.p, e.kind)
DoCopy(e) == S!CopyFile(e.p, e.q)
DoRemove(e) == S!RemoveFile(e.p)

(* A question about the run put as a plain fact.                            *)
DoFact(e) == Eq(e.name, e.got, e.want) /\ UNCHANGED <<dbs, keys, files>>

Step(e) == CASE e.e = "new" -> DoNew(e)
             [] e.e = "key" -> DoKey(e)
             [] e.e = "edit" -> DoEdit(e)
             [] e.e = "show" -> DoShow(e)
             [] e.e = "export" -> DoExport(e)
             [] e.e = "badexport" -> DoBadExport(e)
             [] e.e = "tryexport" -> DoTryExport(e)
             [] e.e = "import" -> DoImport(e)
             [] e.e = "read" -> DoRead(e)
             [] e.e = "give" -> DoGive(e)
             [] e.e = "damage" -> DoDamage(e)
             [] e.e = "copy" -> DoCopy(e)
             [] e.e = "remove" -> DoRemove(e)
             [] e.e = "fact" -> DoFact(e)

Init == c \in 1..Len(Cases) /\ l = 1 /\ S!Init
Next == l <= Len(Ev) /\ Step(Ev[l]) /\ l' = l + 1 /\ UNCHANGED c
Accept == l = Len(Ev) + 1 => PrintT("@ACCEPT " \o ToString(c))
=============================================================================
