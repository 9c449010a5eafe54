----------------------------- MODULE KdbFormat ------------------------------
(***************************************************************************)
(* The KDB 3 file: what its group and entry records mean (DbOf, Fault),    *)
(* which records a database is stored as (RecordsOf), and what of a        *)
(* database the format can hold (View).                                    *)
(*                                                                         *)
(* A record is a sequence of fields [ty: type, n: size, raw: all bytes,    *)
(* str: the bytes before the first NUL, nul: where that NUL is ("none",    *)
(* "inner", "last"), and, where the size allows it, int, b5, hex].  Values *)
(* are encoded as in KdbxFormat.  A file is [sig0, sig1, flags, ver, ng,   *)
(* ne, groups, entries, mseed, iv, tseed, rounds].                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Calendar

CONSTANT Zone

-----------------------------------------------------------------------------
(* Single fields.                                                           *)
GroupTypes == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
EntryTypes == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14"}
Ended(rec) == Len(rec) > 0 /\ rec[Len(rec)].ty = "end"
LastOf(rec, ty) == LET s == SelectSeq(rec, LAMBDA f : f.ty = ty)
                   IN IF s = <<>> THEN [ty |-> "none"] ELSE s[Len(s)]
There(f) == f.ty # "none"
IntOf(rec, ty, default) == LET f == LastOf(rec, ty) IN IF There(f) THEN f.int ELSE default
StrOf(rec, ty) == LET f == LastOf(rec, ty) IN IF There(f) THEN f.str ELSE ""
TimeOf(rec, ty) == LET f == LastOf(rec, ty) IN IF There(f) THEN KdbTime(Zone, f.b5) ELSE "0"

(* A field whose size is not the one its type has.                          *)
GroupSizeBad(f) == CASE f.ty \in {"1", "7"} -> f.n # "4"
                     [] f.ty \in {"3", "4", "5", "6"} -> f.n # "5"
                     [] f.ty \in {"8", "9"} -> f.n # "2"
                     [] f.ty = "2" -> f.nul # "last"
                     [] OTHER -> FALSE
EntrySizeBad(f) == CASE f.ty = "1" -> f.n # "16"
                     [] f.ty \in {"2", "3"} -> f.n # "4"
                     [] f.ty \in {"9", "10", "11", "12"} -> f.n # "5"
                     [] f.ty \in {"4", "5", "6", "7", "8", "13"} -> f.nul # "last"
                     [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* Values the format has no place for.                                      *)
NoAuto == [en |-> "false", ob |-> "0", seq |-> "", assoc |-> <<>>]
AnyUuid == "-"
BareGroup(name, icon, ct, mt, at, et, flags, groups, entries) ==
    [uuid |-> AnyUuid, icon |-> icon, cicon |-> "none", name |-> name, notes |-> "", ct |-> ct, mt |-> mt, at |-> at,
     et |-> et, lt |-> "0", flags |-> flags, expires |-> "false", usage |-> "0", expanded |-> "false", seq |-> "",
     autotype |-> "false", search |-> "false", last |-> "none", groups |-> groups, entries |-> entries]
BareRoot(groups) == BareGroup("", "0", "0", "0", "0", "0", "0", groups, <<>>)
BareEntry(uuid, icon, title, url, user, pass, notes, ct, mt, at, et, att) ==
    [uuid |-> uuid, icon |-> icon, cicon |-> "none", title |-> "U:" \o title, url |-> "U:" \o url, user |-> "U:" \o user,
     pass |-> "U:" \o pass, notes |-> "U:" \o notes, ovr |-> "", tags |-> "", bg |-> "", fg |-> "", ct |-> ct, mt |-> mt,
     at |-> at, et |-> et, lt |-> "0", expires |-> "false", usage |-> "0", auto |-> NoAuto, att |-> att, hist |-> <<>>,
     fields |-> <<>>]
Attachment(name, data) == [name |-> name, bin |-> "own", data |-> "U:" \o data, compress |-> "false"]
BareDb(cipher, mseed, iv, tseed, rounds, root) ==
    [cipher |-> cipher, mseed |-> mseed, iv |-> iv, tseed |-> tseed,
     rkey |-> "0000000000000000000000000000000000000000000000000000000000000000",
     rounds |-> rounds, compress |-> "false", meta |-> [present |-> "false"], root |-> root]

-----------------------------------------------------------------------------
(* Reading                                                                  *)
Level(rec) == NatOf(IntOf(rec, "8", "0"))
Id(rec) == IntOf(rec, "1", "0")
Parent(levels, i) ==              \* 0: the root
    LET above == {j \in 1..(i-1) : levels[j] = levels[i] - 1}
    IN IF levels[i] = 0 THEN 0 ELSE CHOOSE j \in above : \A k \in above : k <= j
LevelsFit(levels) == \A i \in 1..Len(levels) : levels[i] <= (IF i = 1 THEN 0 ELSE levels[i-1] + 1)

ReadEntryRec(rec) ==
    LET names == SelectSeq(rec, LAMBDA f : f.ty = "13" /\ f.str # "")
        datas == SelectSeq(rec, LAMBDA f : f.ty = "14" /\ f.n # "0")
        name == IF names = <<>> THEN "" ELSE names[Len(names)].str
        data == IF datas = <<>> THEN "" ELSE datas[Len(datas)].raw
        u == LastOf(rec, "1")
    IN BareEntry(IF There(u) THEN u.hex ELSE AnyUuid, IntOf(rec, "3", "0"), StrOf(rec, "4"), StrOf(rec, "5"), StrOf(rec, "6"),
                 StrOf(rec, "7"), StrOf(rec, "8"), TimeOf(rec, "9"), TimeOf(rec, "10"), TimeOf(rec, "11"), TimeOf(rec, "12"),
                 IF names = <<>> /\ datas = <<>> THEN <<>> ELSE <<Attachment(name, data)>>)

RECURSIVE Subtree(_, _, _)
Subtree(f, parents, i) ==
    LET rec == f.groups[i]
        kids == SelectSeq([k \in 1..Len(f.groups) |-> k], LAMBDA k : parents[k] = i)
        es == SelectSeq(f.entries, LAMBDA e : IntOf(e, "2", "0") = Id(rec))
    IN BareGroup(StrOf(rec, "2"), IntOf(rec, "7", "0"), TimeOf(rec, "3"), TimeOf(rec, "4"), TimeOf(rec, "5"), TimeOf(rec, "6"),
                 IntOf(rec, "9", "0"), [k \in 1..Len(kids) |-> Subtree(f, parents, kids[k])],
                 [k \in 1..Len(es) |-> ReadEntryRec(es[k])])

Levels(f) == TLCEval([i \in 1..Len(f.groups) |-> Level(f.groups[i])])
Ids(f) == TLCEval({Id(f.groups[i]) : i \in 1..Len(f.groups)})
RootOf(f) ==
    LET levels == Levels(f)
        parents == TLCEval([i \in 1..Len(f.groups) |-> Parent(levels, i)])
        tops == SelectSeq([k \in 1..Len(f.groups) |-> k], LAMBDA k : parents[k] = 0)
    IN BareRoot([k \in 1..Len(tops) |-> Subtree(f, parents, tops[k])])

CipherOf(f) == IF (f.flags \div 2) % 2 = 1 THEN "aes" ELSE IF (f.flags \div 8) % 2 = 1 THEN "twofish" ELSE "none"
Fault(f) ==
    IF f.sig0 # "9aa2d903" \/ f.sig1 # "b54bfb65" THEN "signature"
    ELSE IF f.ver # "000300" THEN "version"
    ELSE IF CipherOf(f) = "none" THEN "cipher"
    ELSE IF \E r \in 1..Len(f.groups) : \E i \in 1..Len(f.groups[r]) : f.groups[r][i].ty \notin GroupTypes \cup {"end"}
         THEN "group field type"
    ELSE IF \E r \in 1..Len(f.entries) : \E i \in 1..Len(f.entries[r]) : f.entries[r][i].ty \notin EntryTypes \cup {"end"}
         THEN "entry field type"
    ELSE IF \E r \in 1..Len(f.groups) : ~Ended(f.groups[r]) THEN "unterminated"
    ELSE IF \E r \in 1..Len(f.entries) : ~Ended(f.entries[r]) THEN "unterminated"
    ELSE IF ~LevelsFit(Levels(f)) THEN "level"
    ELSE IF Cardinality(Ids(f)) # Len(f.groups) THEN "group identifiers"
    ELSE IF \E e \in 1..Len(f.entries) : IntOf(f.entries[e], "2", "0") \notin Ids(f)
         THEN "missing group"
    ELSE ""
(* Files with wrongly sized fields are damaged; the format does not say     *)
(* what a reader makes of them.                                             *)
Sized(f) == /\ \A r \in 1..Len(f.groups) : \A i \in 1..Len(f.groups[r]) : ~GroupSizeBad(f.groups[r][i])
            /\ \A r \in 1..Len(f.entries) : \A i \in 1..Len(f.entries[r]) : ~EntrySizeBad(f.entries[r][i])
DbOf(f) == BareDb(CipherOf(f), f.mseed, f.iv, f.tseed, f.rounds, RootOf(f))
(* The same tree as the sequence of its nodes in preorder, each with its    *)
(* depth: the order the records already have.                               *)
FlatDbOf(f) ==
    LET levels == Levels(f)
        node(i) == LET rec == f.groups[i]
                       es == SelectSeq(f.entries, LAMBDA e : IntOf(e, "2", "0") = Id(rec))
                   IN <<[d |-> levels[i] + 2, k |-> "g",
                         v |-> BareGroup(StrOf(rec, "2"), IntOf(rec, "7", "0"), TimeOf(rec, "3"), TimeOf(rec, "4"), TimeOf(rec, "5"),
                                         TimeOf(rec, "6"), IntOf(rec, "9", "0"), <<>>, <<>>)]>> \o
                      [k \in 1..Len(es) |-> [d |-> levels[i] + 3, k |-> "e", v |-> ReadEntryRec(es[k])]]
    IN BareDb(CipherOf(f), f.mseed, f.iv, f.tseed, f.rounds,
              <<[d |-> 1, k |-> "g", v |-> BareRoot(<<>>)]>> \o FlattenSeq([i \in 1..Len(f.groups) |-> node(i)])) @@ [flat |-> "true"]
ImportOut(f) == IF Fault(f) = "" THEN "ok" ELSE "error"

-----------------------------------------------------------------------------
(* What survives.                                                           *)
Bare(s) == SubSeq(s, 3, Len(s))
VAtt(e) == IF e.att = <<>> \/ (e.att[1].name = "" /\ Bare(e.att[1].data) = "") THEN <<>>
           ELSE <<Attachment(e.att[1].name, Bare(e.att[1].data))>>
VEntry(e) == BareEntry(e.uuid, e.icon, Bare(e.title), Bare(e.url), Bare(e.user), Bare(e.pass), Bare(e.notes),
                       e.ct, e.mt, e.at, e.et, VAtt(e))
RECURSIVE VGroup(_)
VGroup(g) == BareGroup(g.name, g.icon, g.ct, g.mt, g.at, g.et, g.flags, [i \in 1..Len(g.groups) |-> VGroup(g.groups[i])],
                       [i \in 1..Len(g.entries) |-> VEntry(g.entries[i])])
View(db) == BareDb(db.cipher, db.mseed, db.iv, db.tseed, db.rounds, BareRoot([i \in 1..Len(db.root.groups) |-> VGroup(db.root.groups[i])]))

(* A loaded database as View states it: group identities are not stored.    *)
RECURSIVE Anon(_)
Anon(g) == [g EXCEPT !.uuid = AnyUuid, !.groups = [i \in 1..Len(g.groups) |-> Anon(g.groups[i])]]
Seen(db) == [db EXCEPT !.root = Anon(db.root)]
(* ... and entries whose identity the file does not give, as in want.       *)
RECURSIVE Same(_, _)
Same(got, want) ==
    /\ [got EXCEPT !.groups = <<>>, !.entries = <<>>] = [want EXCEPT !.groups = <<>>, !.entries = <<>>]
    /\ Len(got.entries) = Len(want.entries) /\ Len(got.groups) = Len(want.groups)
    /\ \A i \in 1..Len(got.entries) : (IF want.entries[i].uuid = AnyUuid THEN [got.entries[i] EXCEPT !.uuid = AnyUuid]
                                       ELSE got.entries[i]) = want.entries[i]
    /\ \A i \in 1..Len(got.groups) : Same(got.groups[i], want.groups[i])
Matches(proj, want) == /\ [proj EXCEPT !.root = ""] = [want EXCEPT !.root = ""]
                       /\ Same(Anon(proj.root), want.root)

-----------------------------------------------------------------------------
(* Writing: the layout a written file must have...                          *)
Types(rec) == [i \in 1..Len(rec) |-> rec[i].ty]
Once(rec, tys) == \A t \in tys : Cardinality({i \in 1..Len(rec) : rec[i].ty = t}) = 1
AtMostOnce(rec) == \A i, j \in 1..Len(rec) : i # j => rec[i].ty # rec[j].ty
GroupRecOk(r) == /\ Once(r, {"1", "2", "3", "4", "5", "6", "7", "8", "9"}) /\ AtMostOnce(r)
                 /\ \A i \in 1..Len(r) : (r[i].ty = "end") = (i = Len(r)) /\ (r[i].ty = "end" => r[i].n = "0")
EntryRecOk(r) == /\ Once(r, {"1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12"}) /\ AtMostOnce(r)
                 /\ \A i \in 1..Len(r) : (r[i].ty = "end") = (i = Len(r)) /\ (r[i].ty = "end" => r[i].n = "0")
Layout(f) == /\ f.ver = "000300" /\ f.flags \in {2, 3, 8, 9}
             /\ f.ng = Len(f.groups) /\ f.ne = Len(f.entries)
             /\ f.rest = "0"
             /\ \A i \in 1..Len(f.groups) : GroupRecOk(f.groups[i])
             /\ \A i \in 1..Len(f.entries) : EntryRecOk(f.entries[i])
             /\ Sized(f)
Written(f, db) == Layout(f) /\ Fault(f) = "" /\ DbOf(f) = View(db)

(* ... and one way of writing (used to check the two halves against each    *)
(* other; identifiers are positions, plus an offset).                       *)
F4(ty, v) == [ty |-> ty, n |-> "4", raw |-> "?", str |-> "?", nul |-> "none", int |-> v]
F2(ty, v) == [ty |-> ty, n |-> "2", raw |-> "?", str |-> "?", nul |-> "none", int |-> v]
FS(ty, v) == [ty |-> ty, n |-> "?", raw |-> "?", str |-> v, nul |-> "last"]
FT(ty, t) == [ty |-> ty, n |-> "5", raw |-> "?", str |-> "?", nul |-> "none", b5 |-> KdbBytes(Zone, t)]
FU(v) == [ty |-> "1", n |-> "16", raw |-> "?", str |-> "?", nul |-> "none", hex |-> v]
FD(v) == [ty |-> "14", n |-> "some", raw |-> v, str |-> "?", nul |-> "none"]
FE == [ty |-> "end", n |-> "0", raw |-> "", str |-> "", nul |-> "none"]
GroupRec(g, id, level) ==
    <<F4("1", ToString(id)), FS("2", g.name), FT("3", g.ct), FT("4", g.mt), FT("5", g.at), FT("6", g.et), F4("7", g.icon),
      F2("8", ToString(level)), F2("9", g.flags), FE>>
EntryRec(e, id) ==
    <<FU(e.uuid), F4("2", ToString(id)), F4("3", e.icon), FS("4", Bare(e.title)), FS("5", Bare(e.url)), FS("6", Bare(e.user)),
      FS("7", Bare(e.pass)), FS("8", Bare(e.notes)), FT("9", e.ct), FT("10", e.mt), FT("11", e.at), FT("12", e.et)>> \o
    (IF VAtt(e) = <<>> THEN <<>> ELSE
        (IF VAtt(e)[1].name = "" THEN <<>> ELSE <<FS("13", VAtt(e)[1].name)>>) \o
        (IF Bare(VAtt(e)[1].data) = "" THEN <<>> ELSE <<FD(Bare(VAtt(e)[1].data))>>)) \o <<FE>>
RECURSIVE Preorder(_, _)
Preorder(g, level) == <<[g |-> g, level |-> level]>> \o
                      FlattenSeq([i \in 1..Len(g.groups) |-> Preorder(g.groups[i], level + 1)])
FileOf(db, offset) ==
    LET pre == FlattenSeq([i \in 1..Len(db.root.groups) |-> Preorder(db.root.groups[i], 0)])
    IN [sig0 |-> "9aa2d903", sig1 |-> "b54bfb65", flags |-> IF db.cipher = "aes" THEN 3 ELSE 9, ver |-> "000300",
        ng |-> Len(pre), ne |-> FoldSeq(LAMBDA p, n : n + Len(p.g.entries), 0, pre), rest |-> "0",
        groups |-> [i \in 1..Len(pre) |-> GroupRec(pre[i].g, i + offset, pre[i].level)],
        entries |-> FlattenSeq([i \in 1..Len(pre) |-> [k \in 1..Len(pre[i].g.entries) |-> EntryRec(pre[i].g.entries[k], i + offset)]]),
        mseed |-> db.mseed, iv |-> db.iv, tseed |-> db.tseed, rounds |-> db.rounds]
=============================================================================
