----------------------------- MODULE KdbxFormat -----------------------------
(***************************************************************************)
(* The KDBX 3.1 document: what a database becomes when it is written       *)
(* (XmlOf), what a document means when it is read (DbOf), and what of a    *)
(* database the format can hold (View).                                    *)
(*                                                                         *)
(* A database is a record of decimal/boolean/text strings as the accessors *)
(* of the library show it; text and bytes are in the injective encoding of *)
(* the conformance driver, protected strings carry "P:" or "U:" in front.  *)
(* A document is a tree of nodes [t: tag, a: attributes, x: text, c: kids] *)
(* in which the leaves that carry base64 also have b (the decoded bytes,   *)
(* unmasked if the leaf is protected) and z (b decompressed).              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Calendar

CONSTANT TrimText     \* TRUE describes a reader that strips white space around unprotected texts
NoAttr == [k \in {} |-> ""]
Zero16 == "00000000000000000000000000000000"

-----------------------------------------------------------------------------
(* Reading nodes                                                            *)
Kids(n, t) == SelectSeq(n.c, LAMBDA k : k.t = t)
Has(n, t) == \E i \in 1..Len(n.c) : n.c[i].t = t
Nil == [t |-> "", a |-> NoAttr, x |-> "", c |-> <<>>]
Kid(n, t) == IF Has(n, t) THEN n.c[CHOOSE i \in 1..Len(n.c) : n.c[i].t = t /\ \A j \in 1..(i-1) : n.c[j].t # t]
             ELSE Nil
Attr(n, k) == IF k \in DOMAIN n.a THEN n.a[k] ELSE ""

TrueTexts == {"true", "True", "TRUE", "tRUE", "1"}
FalseTexts == {"false", "False", "FALSE", "fALSE", "null", "0"}
BoolOf(x, default) == IF x \in TrueTexts THEN "true" ELSE IF x \in FalseTexts THEN "false" ELSE default
IsTrue(x) == x \in TrueTexts

(* A text (in the driver's encoding) without the white space at its ends.   *)
White == {"09", "0a", "0d", "20"}
RECURSIVE Strip(_)
Strip(s) ==
    LET n == Len(s) IN
    IF n = 0 THEN ""
    ELSE IF Char(s, 1) # "%"
         THEN IF Char(s, 1) = " " THEN Strip(SubSeq(s, 2, n)) ELSE IF Char(s, n) = " " THEN Strip(SubSeq(s, 1, n - 1)) ELSE s
    ELSE IF n < 3 THEN ""
    ELSE IF SubSeq(s, 2, 3) \in White THEN Strip("%" \o SubSeq(s, 4, n))
    ELSE IF SubSeq(s, n - 1, n) \in White THEN Strip(SubSeq(s, 1, n - 2)) ELSE s
Text(s) == IF TrimText THEN Strip(s) ELSE s
TextOf(n) == Text(n.x)
Bytes(n) == IF "b" \in DOMAIN n THEN n.b ELSE ""
Unzipped(n) == IF "z" \in DOMAIN n THEN n.z ELSE "!bad"

Txt(n, t) == TextOf(Kid(n, t))
Num(n, t, default) == LET x == Kid(n, t).x IN IF x = "" THEN default ELSE x
Bool(n, t, default) == BoolOf(Kid(n, t).x, default)
Time(n, t) == IsoTime(Kid(n, t).x)
Uuid(n, t) == LET b == Bytes(Kid(n, t)) IN IF b = "" THEN Zero16 ELSE b

PStr(v) == IF v.t = "" THEN "U:"
           ELSE IF IsTrue(Attr(v, "Protected")) THEN "P:" \o Bytes(v)
           ELSE IF IsTrue(Attr(v, "ProtectedInMemory")) THEN "P:" \o TextOf(v)
           ELSE "U:" \o TextOf(v)

Payload(v) == IF IsTrue(Attr(v, "Protected")) THEN "P:" \o Bytes(v)
              ELSE (IF IsTrue(Attr(v, "ProtectedInMemory")) THEN "P:" ELSE "U:")
                   \o (IF IsTrue(Attr(v, "Compressed")) THEN Unzipped(v) ELSE Bytes(v))
PayloadBad(v) == \/ Bytes(v) = "!bad"
                 \/ ~IsTrue(Attr(v, "Protected")) /\ IsTrue(Attr(v, "Compressed")) /\ Unzipped(v) = "!bad"

-----------------------------------------------------------------------------
(* Paths and references                                                     *)
SubPath(p, i) == IF p = "" THEN ToString(i - 1) ELSE p \o "." \o ToString(i - 1)
Index(s, test(_)) == IF \E i \in 1..Len(s) : test(s[i])
                     THEN CHOOSE i \in 1..Len(s) : test(s[i]) /\ \A j \in 1..(i-1) : ~test(s[j]) ELSE 0

RECURSIVE GroupIndex(_, _)        \* preorder sequence of <<uuid, path>> of a Group node
GroupIndex(n, path) ==
    LET kids == Kids(n, "Group")
    IN <<<<Uuid(n, "UUID"), path>>>> \o
       FlattenSeq([i \in 1..Len(kids) |-> GroupIndex(kids[i], SubPath(path, i))])

GroupRef(index, uuid) ==          \* path reference, or "" if the document has no such group
    LET i == Index(index, LAMBDA p : p[1] = uuid) IN IF i = 0 THEN "" ELSE "g:" \o index[i][2]

-----------------------------------------------------------------------------
(* Reading: DbOf                                                            *)
Icons(meta) == LET s == SelectSeq(Kids(Kid(meta, "CustomIcons"), "Icon"), LAMBDA i : Bytes(Kid(i, "Data")) # "")
               IN [k \in 1..Len(s) |-> [uuid |-> Uuid(s[k], "UUID"), data |-> Bytes(Kid(s[k], "Data"))]]
BinNodes(meta) == Kids(Kid(meta, "Binaries"), "Binary")
Bins(meta) == [k \in 1..Len(BinNodes(meta)) |->
                  LET b == BinNodes(meta)[k] IN
                  [data |-> Payload(b),
                   compress |-> IF ~IsTrue(Attr(b, "Protected")) /\ IsTrue(Attr(b, "Compressed")) THEN "true" ELSE "false"]]
IconRef(icons, n) ==
    IF Bytes(Kid(n, "CustomIconUUID")) = "" THEN "none"
    ELSE LET i == Index(icons, LAMBDA c : c.uuid = Uuid(n, "CustomIconUUID"))
         IN IF i = 0 THEN "none" ELSE "i:" \o ToString(i - 1)

StdKeys == {"Title", "URL", "UserName", "Password", "Notes"}
LastStr(n, key) ==                \* value of the last String with that key
    LET s == SelectSeq(Kids(n, "String"), LAMBDA k : Txt(k, "Key") = key)
    IN IF s = <<>> THEN "U:" ELSE PStr(Kid(s[Len(s)], "Value"))

ReadAttachment(b, meta, bins) ==
    LET v == Kid(b, "Value")
        name == Txt(b, "Key")
        k == Index(BinNodes(meta), LAMBDA m : Attr(m, "ID") = v.a.Ref)
    IN IF v.t # "" /\ "Ref" \in DOMAIN v.a
       THEN [name |-> name, bin |-> "b:" \o ToString(k - 1), data |-> bins[k].data, compress |-> bins[k].compress]
       ELSE [name |-> name, bin |-> "own", data |-> IF v.t = "" THEN "U:" ELSE Payload(v), compress |-> "false"]

RECURSIVE ReadEntry(_, _, _, _)
ReadEntry(n, meta, icons, bins) ==
    LET tm == Kid(n, "Times")
        at == Kid(n, "AutoType")
        as == Kids(at, "Association")
        cf == SelectSeq(Kids(n, "String"), LAMBDA k : Txt(k, "Key") \notin StdKeys)
        bs == Kids(n, "Binary")
        hs == Kids(Kid(n, "History"), "Entry")
    IN [uuid |-> Uuid(n, "UUID"), icon |-> Num(n, "IconID", "0"), cicon |-> IconRef(icons, n),
        title |-> LastStr(n, "Title"), url |-> LastStr(n, "URL"), user |-> LastStr(n, "UserName"),
        pass |-> LastStr(n, "Password"), notes |-> LastStr(n, "Notes"),
        ovr |-> Txt(n, "OverrideURL"), tags |-> Txt(n, "Tags"),
        bg |-> Txt(n, "BackgroundColor"), fg |-> Txt(n, "ForegroundColor"),
        ct |-> Time(tm, "CreationTime"), mt |-> Time(tm, "LastModificationTime"),
        at |-> Time(tm, "LastAccessTime"), et |-> Time(tm, "ExpiryTime"), lt |-> Time(tm, "LocationChanged"),
        expires |-> Bool(tm, "Expires", "false"), usage |-> Num(tm, "UsageCount", "0"),
        auto |-> [en |-> Bool(at, "Enabled", "false"), ob |-> Num(at, "DataTransferObfuscation", "0"),
                  seq |-> Txt(at, "DefaultSequence"),
                  assoc |-> [i \in 1..Len(as) |-> [w |-> Txt(as[i], "Window"), s |-> Txt(as[i], "KeystrokeSequence")]]],
        att |-> [i \in 1..Len(bs) |-> ReadAttachment(bs[i], meta, bins)],
        hist |-> [i \in 1..Len(hs) |-> ReadEntry(hs[i], meta, icons, bins)],
        fields |-> [i \in 1..Len(cf) |-> [k |-> Txt(cf[i], "Key"), v |-> PStr(Kid(cf[i], "Value"))]]]

RECURSIVE ReadGroup(_, _, _, _, _)
ReadGroup(n, path, meta, icons, bins) ==
    LET tm == Kid(n, "Times")
        gs == Kids(n, "Group")
        es == Kids(n, "Entry")
        li == IF Bytes(Kid(n, "LastTopVisibleEntry")) = "" THEN 0
              ELSE Index(es, LAMBDA e : Uuid(e, "UUID") = Uuid(n, "LastTopVisibleEntry"))
    IN [uuid |-> Uuid(n, "UUID"), icon |-> Num(n, "IconID", "0"), cicon |-> IconRef(icons, n),
        name |-> Txt(n, "Name"), notes |-> Txt(n, "Notes"),
        ct |-> Time(tm, "CreationTime"), mt |-> Time(tm, "LastModificationTime"),
        at |-> Time(tm, "LastAccessTime"), et |-> Time(tm, "ExpiryTime"), lt |-> Time(tm, "LocationChanged"),
        flags |-> "0", expires |-> Bool(tm, "Expires", "false"), usage |-> Num(tm, "UsageCount", "0"),
        expanded |-> Bool(n, "IsExpanded", "false"), seq |-> Txt(n, "DefaultAutoTypeSequence"),
        autotype |-> Bool(n, "EnableAutoType", "false"), search |-> Bool(n, "EnableSearching", "false"),
        last |-> IF li = 0 THEN "none" ELSE "e:" \o path \o "/" \o ToString(li - 1),
        groups |-> [i \in 1..Len(gs) |-> ReadGroup(gs[i], SubPath(path, i), meta, icons, bins)],
        entries |-> [i \in 1..Len(es) |-> ReadEntry(es[i], meta, icons, bins)]]

ReadMeta(meta, index) ==
    LET mp == Kid(meta, "MemoryProtection")
        its == SelectSeq(Kids(Kid(meta, "CustomData"), "Item"), LAMBDA i : Txt(i, "Key") # "")
        Owned(t) == IF Bytes(Kid(meta, t)) = "" THEN "none"
                    ELSE LET r == GroupRef(index, Uuid(meta, t)) IN IF r = "" THEN "detached:" \o Uuid(meta, t) ELSE r
        Shown(t) == IF Bytes(Kid(meta, t)) = "" THEN "none"
                    ELSE LET r == GroupRef(index, Uuid(meta, t)) IN IF r = "" THEN "none" ELSE r
    IN [present |-> "true", gen |-> Txt(meta, "Generator"),
        name |-> Txt(meta, "DatabaseName"), namet |-> Time(meta, "DatabaseNameChanged"),
        desc |-> Txt(meta, "DatabaseDescription"), desct |-> Time(meta, "DatabaseDescriptionChanged"),
        user |-> Txt(meta, "DefaultUserName"), usert |-> Time(meta, "DefaultUserNameChanged"),
        mhd |-> Num(meta, "MaintenanceHistoryDays", "365"), color |-> Txt(meta, "Color"),
        mkc |-> Time(meta, "MasterKeyChanged"), mkcr |-> Num(meta, "MasterKeyChangeRec", "-1"),
        mkcf |-> Num(meta, "MasterKeyChangeForce", "-1"),
        mp |-> [title |-> Bool(mp, "ProtectTitle", "false"), user |-> Bool(mp, "ProtectUserName", "false"),
                pass |-> Bool(mp, "ProtectPassword", "true"), url |-> Bool(mp, "ProtectURL", "false"),
                notes |-> Bool(mp, "ProtectNotes", "false")],
        rb |-> IF Bool(meta, "RecycleBinEnabled", "true") = "true" THEN Owned("RecycleBinUUID") ELSE "none",
        rbt |-> Time(meta, "RecycleBinChanged"),
        tmpl |-> Owned("EntryTemplatesGroup"), tmplt |-> Time(meta, "EntryTemplatesGroupChanged"),
        hmi |-> Num(meta, "HistoryMaxItems", "-1"), hms |-> Num(meta, "HistoryMaxSize", "-1"),
        lsg |-> Shown("LastSelectedGroup"), lvg |-> Shown("LastTopVisibleGroup"),
        bins |-> Bins(meta), icons |-> Icons(meta),
        fields |-> [i \in 1..Len(its) |-> [k |-> Txt(its[i], "Key"), v |-> Txt(its[i], "Value")]]]

RECURSIVE AllNodes(_)
AllNodes(n) == <<n>> \o FlattenSeq([i \in 1..Len(n.c) |-> AllNodes(n.c[i])])

Contents(kpf) == LET meta == Kid(kpf, "Meta")
                     rg == Kid(Kid(kpf, "Root"), "Group")
                     index == GroupIndex(rg, "")
                 IN [meta |-> ReadMeta(meta, index), root |-> ReadGroup(rg, "", meta, Icons(meta), Bins(meta))]

(* Why a document must be refused; "" if it must be read.                   *)
Fault(kpf, hash) ==
    LET meta == Kid(kpf, "Meta")
        nodes == AllNodes(kpf)
        refs == SelectSeq(nodes, LAMBDA n : n.t = "Value" /\ "Ref" \in DOMAIN n.a)
    IN IF kpf.t # "KeePassFile" THEN "no KeePassFile"
       ELSE IF ~Has(kpf, "Meta") THEN "no Meta"
       ELSE IF ~Has(Kid(kpf, "Root"), "Group") THEN "no Root/Group"
       ELSE IF \E i \in 1..Len(nodes) : PayloadBad(nodes[i]) THEN "undecodable data"
       ELSE IF \E i \in 1..Len(refs) : \A k \in 1..Len(BinNodes(meta)) : Attr(BinNodes(meta)[k], "ID") # refs[i].a.Ref
            THEN "missing binary"
       ELSE IF Bytes(Kid(meta, "HeaderHash")) # hash THEN "header hash"
       ELSE ""

-----------------------------------------------------------------------------
(* The outer header: a sequence of <<id, size, hex>>; the last field of a   *)
(* kind counts, the list ends with id 0.                                    *)
AesId == "31c1f2e6bf714350be5805216afc5aff"
LastField(h, id, default) ==
    LET s == SelectSeq(h, LAMBDA f : f[1] = id) IN IF s = <<>> THEN default ELSE s[Len(s)][3]
FieldFault(f) == CASE f[1] = "0" -> FALSE
                   [] f[1] = "2" -> f[3] # AesId
                   [] f[1] = "3" -> f[3] \notin {"00000000", "01000000"}
                   [] f[1] = "4" -> FALSE
                   [] f[1] \in {"5", "8", "9"} -> f[2] # "32"
                   [] f[1] = "6" -> f[2] # "8"
                   [] f[1] = "7" -> f[2] # "16"
                   [] f[1] = "10" -> f[3] # "02000000"
                   [] OTHER -> TRUE
HeaderFault(f) == \/ f.sig # "03d9a29a67fb4bb5"
                  \/ f.vermajor > 3
                  \/ \E i \in 1..Len(f.hdr) : FieldFault(f.hdr[i])

(* What a written header and block stream look like.                        *)
HeaderWritten(f) ==
    /\ f.ver = "00030001"
    /\ Len(f.hdr) = 10 /\ f.hdr[10][1] = "0"
    /\ {f.hdr[i][1] : i \in 1..10} = {"0", "2", "3", "4", "5", "6", "7", "8", "9", "10"}
Framed(blocks) ==
    LET n == Len(blocks) IN
    /\ n > 0
    /\ \A i \in 1..n : blocks[i].idx = i - 1
    /\ \A i \in 1..(n-1) : blocks[i].hash = "ok" /\ blocks[i].size > 0
    /\ \A i \in 1..(n-2) : blocks[i].size = 1048576
    /\ n > 1 => blocks[n-1].size <= 1048576
    /\ blocks[n].size = 0 /\ blocks[n].hash = "zero"

HeaderView(f) ==
    [cipher |-> "aes", mseed |-> LastField(f.hdr, "4", ""), iv |-> LastField(f.hdr, "7", ""),
     tseed |-> LastField(f.hdr, "5", ""), rkey |-> LastField(f.hdr, "8", ""), rounds |-> f.rounds,
     compress |-> IF LastField(f.hdr, "3", "00000000") = "01000000" THEN "true" ELSE "false"]

Join(h, c) == [cipher |-> h.cipher, mseed |-> h.mseed, iv |-> h.iv, tseed |-> h.tseed, rkey |-> h.rkey,
               rounds |-> h.rounds, compress |-> h.compress, meta |-> c.meta, root |-> c.root]

(* Importing file f with its own key.                                       *)
ImportOut(f) == IF HeaderFault(f) THEN "error" ELSE IF Fault(f.tree, f.hash) # "" THEN "error" ELSE "ok"
DbOf(f) == Join(HeaderView(f), Contents(f.tree))

-----------------------------------------------------------------------------
(* Writing: XmlOf gives leaves [t, k: kind, v: value] and inner nodes       *)
(* [t, k |-> "node", c].  Kinds: txt, num, bool, time, b64 (unmasked),      *)
(* prot (masked), gz (compressed), ref (attachment reference).              *)
Leaf(t, k, v) == [t |-> t, k |-> k, v |-> v, c |-> <<>>, id |-> ""]
Inner(t, c) == [t |-> t, k |-> "node", v |-> "", c |-> c, id |-> ""]
Marked(s) == SubSeq(s, 1, 2) = "P:"
Plain(s) == SubSeq(s, 3, Len(s))
PLeaf(t, s) == IF Marked(s) THEN Leaf(t, "prot", Plain(s)) ELSE Leaf(t, "txt", Plain(s))
DLeaf(t, s) == IF Marked(s) THEN Leaf(t, "prot", Plain(s)) ELSE Leaf(t, "b64", Plain(s))
Opt(c, leaf) == IF c THEN <<leaf>> ELSE <<>>

XTimes(r) == Inner("Times", <<Leaf("CreationTime", "time", r.ct), Leaf("LastModificationTime", "time", r.mt),
    Leaf("LastAccessTime", "time", r.at), Leaf("ExpiryTime", "time", r.et), Leaf("LocationChanged", "time", r.lt),
    Leaf("Expires", "bool", r.expires), Leaf("UsageCount", "num", r.usage)>>)

RefIndex(prefix, r) == NatOf(SubSeq(r, Len(prefix) + 1, Len(r))) + 1
RefKind(r, p) == Len(r) >= Len(p) /\ SubSeq(r, 1, Len(p)) = p
IconUuid(icons, r) == IF RefKind(r, "detached:") THEN SubSeq(r, 10, Len(r)) ELSE icons[RefIndex("i:", r)].uuid

XStr(key, s) == Inner("String", <<Leaf("Key", "txt", key), PLeaf("Value", s)>>)
XAttachment(a) == Inner("Binary", <<Leaf("Key", "txt", a.name),
    IF RefKind(a.bin, "b:") THEN Leaf("Value", "ref", SubSeq(a.bin, 3, Len(a.bin))) ELSE DLeaf("Value", a.data)>>)

RECURSIVE XEntry(_, _)
XEntry(e, icons) == Inner("Entry",
    <<Leaf("UUID", "b64", e.uuid), Leaf("IconID", "num", e.icon), Leaf("ForegroundColor", "txt", e.fg),
      Leaf("BackgroundColor", "txt", e.bg), Leaf("OverrideURL", "txt", e.ovr), Leaf("Tags", "txt", e.tags)>> \o
    Opt(e.cicon # "none", Leaf("CustomIconUUID", "b64", IF e.cicon = "none" THEN "" ELSE IconUuid(icons, e.cicon))) \o
    <<XTimes(e),
      Inner("AutoType", <<Leaf("Enabled", "bool", e.auto.en), Leaf("DataTransferObfuscation", "num", e.auto.ob),
                          Leaf("DefaultSequence", "txt", e.auto.seq)>> \o
            [i \in 1..Len(e.auto.assoc) |-> Inner("Association",
                <<Leaf("Window", "txt", e.auto.assoc[i].w), Leaf("KeystrokeSequence", "txt", e.auto.assoc[i].s)>>)]),
      XStr("Title", e.title), XStr("URL", e.url), XStr("UserName", e.user), XStr("Password", e.pass),
      XStr("Notes", e.notes)>> \o
    [i \in 1..Len(e.fields) |-> XStr(e.fields[i].k, e.fields[i].v)] \o
    [i \in 1..Len(e.att) |-> XAttachment(e.att[i])] \o
    <<Inner("History", [i \in 1..Len(e.hist) |-> XEntry(e.hist[i], icons)])>>)

RECURSIVE GroupAt(_, _)           \* the group at a path like "0.2", "" being the root
GroupAt(g, p) ==
    IF p = "" THEN g
    ELSE LET dot == Index([i \in 1..Len(p) |-> Char(p, i)], LAMBDA ch : ch = ".")
             head == IF dot = 0 THEN p ELSE SubSeq(p, 1, dot - 1)
             tail == IF dot = 0 THEN "" ELSE SubSeq(p, dot + 1, Len(p))
         IN GroupAt(g.groups[NatOf(head) + 1], tail)
GroupUuid(root, r) == IF RefKind(r, "detached:") THEN SubSeq(r, 10, Len(r))
                      ELSE GroupAt(root, SubSeq(r, 3, Len(r))).uuid
EntryUuid(root, r) ==
    IF RefKind(r, "detached:") THEN SubSeq(r, 10, Len(r))
    ELSE LET s == Index([i \in 1..Len(r) |-> Char(r, i)], LAMBDA ch : ch = "/")
         IN GroupAt(root, SubSeq(r, 3, s - 1)).entries[NatOf(SubSeq(r, s + 1, Len(r))) + 1].uuid

RECURSIVE XGroup(_, _, _)
XGroup(g, root, icons) == Inner("Group",
    <<Leaf("UUID", "b64", g.uuid), Leaf("Name", "txt", g.name), Leaf("Notes", "txt", g.notes),
      Leaf("IconID", "num", g.icon)>> \o
    Opt(g.cicon # "none", Leaf("CustomIconUUID", "b64", IF g.cicon = "none" THEN "" ELSE IconUuid(icons, g.cicon))) \o
    <<XTimes(g), Leaf("IsExpanded", "bool", g.expanded), Leaf("DefaultAutoTypeSequence", "txt", g.seq),
      Leaf("EnableAutoType", "bool", g.autotype), Leaf("EnableSearching", "bool", g.search)>> \o
    Opt(g.last # "none", Leaf("LastTopVisibleEntry", "b64", IF g.last = "none" THEN "" ELSE EntryUuid(root, g.last))) \o
    [i \in 1..Len(g.entries) |-> XEntry(g.entries[i], icons)] \o
    [i \in 1..Len(g.groups) |-> XGroup(g.groups[i], root, icons)])

XMeta(db, hash) ==
    LET m == db.meta
        GRef(t, r) == Opt(r # "none", Leaf(t, "b64", IF r = "none" THEN "" ELSE GroupUuid(db.root, r)))
    IN Inner("Meta",
    <<Leaf("HeaderHash", "b64", hash), Leaf("Generator", "txt", m.gen), Leaf("DatabaseName", "txt", m.name),
      Leaf("DatabaseNameChanged", "time", m.namet), Leaf("DatabaseDescription", "txt", m.desc),
      Leaf("DatabaseDescriptionChanged", "time", m.desct), Leaf("DefaultUserName", "txt", m.user),
      Leaf("DefaultUserNameChanged", "time", m.usert), Leaf("MaintenanceHistoryDays", "num", m.mhd),
      Leaf("Color", "txt", m.color), Leaf("MasterKeyChanged", "time", m.mkc),
      Leaf("MasterKeyChangeRec", "num", m.mkcr), Leaf("MasterKeyChangeForce", "num", m.mkcf),
      Inner("MemoryProtection", <<Leaf("ProtectTitle", "bool", m.mp.title), Leaf("ProtectUserName", "bool", m.mp.user),
          Leaf("ProtectPassword", "bool", m.mp.pass), Leaf("ProtectURL", "bool", m.mp.url),
          Leaf("ProtectNotes", "bool", m.mp.notes)>>),
      Leaf("RecycleBinEnabled", "bool", IF m.rb = "none" THEN "false" ELSE "true")>> \o
    GRef("RecycleBinUUID", m.rb) \o <<Leaf("RecycleBinChanged", "time", m.rbt)>> \o
    GRef("EntryTemplatesGroup", m.tmpl) \o <<Leaf("EntryTemplatesGroupChanged", "time", m.tmplt),
      Leaf("HistoryMaxItems", "num", m.hmi), Leaf("HistoryMaxSize", "num", m.hms)>> \o
    GRef("LastSelectedGroup", m.lsg) \o GRef("LastTopVisibleGroup", m.lvg) \o
    <<Inner("CustomIcons", [i \in 1..Len(m.icons) |-> Inner("Icon",
          <<Leaf("UUID", "b64", m.icons[i].uuid), Leaf("Data", "b64", m.icons[i].data)>>)]),
      Inner("Binaries", [i \in 1..Len(m.bins) |->
          [IF Marked(m.bins[i].data) THEN Leaf("Binary", "prot", Plain(m.bins[i].data))
           ELSE IF m.bins[i].compress = "true" THEN Leaf("Binary", "gz", Plain(m.bins[i].data))
           ELSE Leaf("Binary", "b64", Plain(m.bins[i].data)) EXCEPT !.id = ToString(i - 1)]]),
      Inner("CustomData", [i \in 1..Len(m.fields) |-> Inner("Item",
          <<Leaf("Key", "txt", m.fields[i].k), Leaf("Value", "txt", m.fields[i].v)>>)])>>)

XmlOf(db, hash) == Inner("KeePassFile",
    <<XMeta(db, hash), Inner("Root", <<XGroup(db.root, db.root, db.meta.icons)>>)>>)

-----------------------------------------------------------------------------
(* Does a file's node say what the specification's node says?  The order of *)
(* different elements among siblings is free, the order of equal ones not   *)
(* (among an entry's strings: of those with equal keys, and of the custom   *)
(* ones); an empty element may be left out.                                 *)
IsNumber(x) == \/ AllDigits(x) /\ (Len(x) = 1 \/ Char(x, 1) # "0")
               \/ Len(x) > 1 /\ Char(x, 1) = "-" /\ AllDigits(SubSeq(x, 2, Len(x)))
Unmarked(f) == ~IsTrue(Attr(f, "Protected"))
(* KeePass reads truth values in this spelling only; where there is a third *)
(* value ("null") it takes any case.                                        *)
Spelled(f, v) == \/ f.x = IF v = "true" THEN "True" ELSE "False"
                 \/ f.t \in {"EnableAutoType", "EnableSearching"} /\ BoolOf(f.x, "?") = v
LeafSays(f, s) ==
    CASE s.k = "txt" -> Unmarked(f) /\ f.x = s.v /\ f.c = <<>>
      [] s.k = "num" -> IsNumber(f.x) /\ f.x = s.v
      [] s.k = "bool" -> Spelled(f, s.v)
      [] s.k = "time" -> IsIso(f.x) /\ IsoTime(f.x) = s.v
      [] s.k = "b64" -> Unmarked(f) /\ ~IsTrue(Attr(f, "Compressed")) /\ Bytes(f) = s.v
      [] s.k = "gz" -> Unmarked(f) /\ Attr(f, "Compressed") = "True" /\ Unzipped(f) = s.v
      [] s.k = "prot" -> /\ Attr(f, "Protected") = "True" /\ ~IsTrue(Attr(f, "Compressed")) /\ Bytes(f) = s.v
      [] s.k = "ref" -> Attr(f, "Ref") = s.v /\ f.x = ""
Empty(s) == s.c = <<>> /\ s.v = "" /\ s.k \in {"node", "txt"}
Tags(seq) == {seq[i].t : i \in 1..Len(seq)}
KeyOrder == <<"Title", "URL", "UserName", "Password", "Notes">>
Sorted(strs, key(_)) == FlattenSeq([i \in 1..5 |-> SelectSeq(strs, LAMBDA k : key(k) = KeyOrder[i])])
                        \o SelectSeq(strs, LAMBDA k : key(k) \notin StdKeys)
FKey(n) == Kid(n, "Key").x
SKey(n) == LET k == SelectSeq(n.c, LAMBDA m : m.t = "Key") IN IF k = <<>> THEN "" ELSE k[1].v
Found(f, t) == IF t = "String" THEN Sorted(Kids(f, t), FKey) ELSE Kids(f, t)
Wanted(s, t) == LET ss == SelectSeq(s.c, LAMBDA k : k.t = t) IN IF t = "String" THEN Sorted(ss, SKey) ELSE ss
RECURSIVE Says(_, _)
Says(f, s) ==
    /\ f.t = s.t
    /\ s.id # "" => Attr(f, "ID") = s.id
    /\ IF s.k # "node" THEN LeafSays(f, s)
       ELSE /\ Tags(f.c) \subseteq Tags(s.c)
            /\ \A t \in Tags(s.c) :
                 LET fs == Found(f, t)
                     ss == Wanted(s, t)
                 IN \/ Len(fs) = Len(ss) /\ \A i \in 1..Len(ss) : Says(fs[i], ss[i])
                    \/ fs = <<>> /\ \A i \in 1..Len(ss) : Empty(ss[i])

(* A human-readable place where they differ.                                *)
RECURSIVE Differs(_, _, _)
Differs(f, s, path) ==
    IF Says(f, s) THEN <<>>
    ELSE IF s.k # "node" \/ f.t # s.t THEN <<path \o "/" \o s.t, s, [f EXCEPT !.c = <<>>]>>
    ELSE IF ~(Tags(f.c) \subseteq Tags(s.c)) THEN <<path \o "/" \o s.t, "unexpected", Tags(f.c) \ Tags(s.c)>>
    ELSE LET bad == {t \in Tags(s.c) : Len(Found(f, t)) # Len(Wanted(s, t))}
             deep == {<<t, i>> \in Tags(s.c) \X (1..Len(f.c)) :
                        /\ i <= Len(Found(f, t)) /\ i <= Len(Wanted(s, t))
                        /\ ~Says(Found(f, t)[i], Wanted(s, t)[i])}
         IN IF deep # {} THEN LET p == CHOOSE p \in deep : \A q \in deep : q[2] >= p[2] IN
                 Differs(Found(f, p[1])[p[2]], Wanted(s, p[1])[p[2]],
                         path \o "/" \o s.t \o "[" \o ToString(p[2]) \o "]")
            ELSE <<path \o "/" \o s.t, "number of", bad>>

-----------------------------------------------------------------------------
(* Rendering: a concrete document for what XmlOf demands (used to check the *)
(* two halves of the specification against each other).                     *)
RECURSIVE Render(_)
Render(s) ==
    LET idattr == IF s.id = "" THEN NoAttr ELSE "ID" :> s.id
        base == [t |-> s.t, a |-> idattr, x |-> "", c |-> <<>>]
    IN CASE s.k = "node" -> [base EXCEPT !.c = [i \in 1..Len(s.c) |-> Render(s.c[i])]]
         [] s.k = "txt" -> [base EXCEPT !.x = s.v]
         [] s.k = "num" -> [base EXCEPT !.x = s.v]
         [] s.k = "bool" -> [base EXCEPT !.x = IF s.v = "true" THEN "True" ELSE "False"]
         [] s.k = "time" -> [base EXCEPT !.x = IsoText(s.v)]
         [] s.k = "b64" -> [t |-> s.t, a |-> idattr, x |-> "", c |-> <<>>, b |-> s.v]
         [] s.k = "gz" -> [t |-> s.t, a |-> idattr @@ ("Compressed" :> "True"), x |-> "", c |-> <<>>, b |-> "?", z |-> s.v]
         [] s.k = "prot" -> [t |-> s.t, a |-> idattr @@ ("Protected" :> "True"), x |-> "", c |-> <<>>, b |-> s.v]
         [] s.k = "ref" -> [base EXCEPT !.a = "Ref" :> s.v]

-----------------------------------------------------------------------------
(* What survives a save and a load.                                         *)
Kept(r) == IF RefKind(r, "detached:") THEN "none" ELSE r
PText(s) == IF Marked(s) THEN s ELSE "U:" \o Text(Plain(s))
RECURSIVE VEntry(_), VGroup(_, _)
VEntry(e) == [e EXCEPT !.cicon = Kept(e.cicon),
                       !.title = PText(@), !.url = PText(@), !.user = PText(@), !.pass = PText(@), !.notes = PText(@),
                       !.ovr = Text(@), !.tags = Text(@), !.bg = Text(@), !.fg = Text(@), !.auto.seq = Text(@),
                       !.auto.assoc = [i \in 1..Len(e.auto.assoc) |-> [w |-> Text(e.auto.assoc[i].w), s |-> Text(e.auto.assoc[i].s)]],
                       !.att = [i \in 1..Len(e.att) |-> [e.att[i] EXCEPT !.name = Text(@), !.compress = IF e.att[i].bin = "own" \/ Marked(e.att[i].data) THEN "false" ELSE @]],
                       !.hist = [i \in 1..Len(e.hist) |-> VEntry(e.hist[i])],
                       !.fields = [i \in 1..Len(e.fields) |-> [k |-> Text(e.fields[i].k), v |-> PText(e.fields[i].v)]]]
VGroup(g, path) ==
    [g EXCEPT !.cicon = Kept(g.cicon), !.flags = "0",
              !.name = Text(@), !.notes = Text(@), !.seq = Text(@),
              !.last = IF RefKind(g.last, "e:" \o path \o "/") THEN g.last ELSE "none",
              !.entries = [i \in 1..Len(g.entries) |-> VEntry(g.entries[i])],
              !.groups = [i \in 1..Len(g.groups) |-> VGroup(g.groups[i], SubPath(path, i))]]
VBin(b) == IF Marked(b.data) THEN [b EXCEPT !.compress = "false"] ELSE b
VMeta(m) == LET fs == SelectSeq(m.fields, LAMBDA f : Text(f.k) # "") IN
            [m EXCEPT !.lsg = Kept(m.lsg), !.lvg = Kept(m.lvg),
                      !.gen = Text(@), !.name = Text(@), !.desc = Text(@), !.user = Text(@), !.color = Text(@),
                      !.fields = [i \in 1..Len(fs) |-> [k |-> Text(fs[i].k), v |-> Text(fs[i].v)]],
                      !.bins = [i \in 1..Len(m.bins) |-> VBin(m.bins[i])]]
View(db) == [db EXCEPT !.meta = VMeta(db.meta), !.root = VGroup(db.root, "")]
=============================================================================
