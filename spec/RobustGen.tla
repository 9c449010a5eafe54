------------------------------ MODULE RobustGen ------------------------------
(***************************************************************************)
(* Malformed files.  A file is a stack of layers; faults sit in layers.    *)
(* The reader takes the layers off one after another: a layer without a    *)
(* fault lets it pass, a layer with a fault lets it pass or refuse.  So    *)
(* every file ends in "loaded" or "refused", a sound one in "loaded", and  *)
(* nothing below the layer of the first refusal is looked at.  The faults  *)
(* are printed and put into real files.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Fmt, MaxFaults, Leaves, Elements, Records
VARIABLES faults, at, res
vars == <<faults, at, res>>

Layers == IF Fmt = "kdbx" THEN <<"header", "frames", "gzip", "markup", "elements", "values">> ELSE <<"header", "body", "records", "fields">>
F(layer, i, j, op) == [layer |-> layer, i |-> i, j |-> j, op |-> op]
HeaderOps == {"drop", "dup", "grow", "shrink", "empty", "zeros", "ones", "random", "first", "hugesize"}
KdbHeaderOps == {"zeros", "ones", "random", "plus1", "minus1", "high", "cut"}
BodyOps == {"empty", "half", "cut1", "cut16", "cut17", "garbage", "wrongpad", "more"}
FrameOps == {"index", "hash", "size0", "sizeplus", "sizehuge", "noend", "nothing", "bytes", "endhash", "afterend", "endearly"}
GzipOps == {"not", "cut", "cuthalf", "flip", "crc", "size", "twice", "nothing", "bomb", "plain", "stored"}
MarkupOps == {"nothing", "cut", "cuthalf", "doctype", "entities", "external", "utf16le", "utf16be", "latin1", "badutf8", "nul", "bom", "tail",
              "text", "noroot", "tworoots", "wrongroot", "pi", "comments", "cdata", "unclosed", "crossed", "attrs", "emptytag", "deep", "deepmeta"}
ElementOps == {"drop", "dup", "rename", "hollow", "inself", "reverse", "toroot", "many", "lower", "twins", "sameid"}
ValueOps == {"none", "space", "word", "zero", "minus", "minus1", "big32", "big64", "huge", "float", "hex", "plus", "b64pad", "b64bad", "b64short",
             "b64long", "date0", "date13", "date60", "datebig", "dateneg", "dateshort", "dateother", "long", "controls", "unicode", "kids",
             "prot", "protbad", "compressed", "both", "mem", "refmissing", "refempty", "refcopy", "idcopy", "idnone", "boolodd"}
RecordOps == {"dropend", "drop", "dup", "swap", "empty", "endfirst", "twoends", "sameid"}
FieldOps == {"drop", "dup", "retype", "unknown", "size0", "size1", "sizeplus", "sizeminus", "size64k", "size2g", "size2gm", "size4g", "size4gm",
             "empty", "zeros", "ones", "random", "noterm", "long", "innernul", "badutf8", "short", "longer"}

Sites(layer) ==
    CASE layer = "header" -> IF Fmt = "kdbx" THEN {F(layer, i, 0, op) : i \in 1..10, op \in HeaderOps}
                             ELSE {F(layer, i, 0, op) : i \in 1..12, op \in KdbHeaderOps}
      [] layer = "body" -> {F(layer, 0, 0, op) : op \in BodyOps}
      [] layer = "frames" -> {F(layer, i, 0, op) : i \in 0..2, op \in FrameOps}
      [] layer = "gzip" -> {F(layer, 0, 0, op) : op \in GzipOps}
      [] layer = "markup" -> {F(layer, i, 0, op) : i \in 0..1, op \in MarkupOps}
      [] layer = "elements" -> {F(layer, i, 0, op) : i \in 1..Elements, op \in ElementOps}
      [] layer = "values" -> {F(layer, i, 0, op) : i \in 1..Leaves, op \in ValueOps}
      [] layer = "records" -> {F(layer, i, 0, op) : i \in 1..Records, op \in RecordOps}
      [] layer = "fields" -> {F(layer, i, j, op) : i \in 1..Records, j \in 1..Leaves, op \in FieldOps}
Faulty(n) == \E i \in 1..Len(faults) : faults[i].layer = Layers[n]

Init == faults = <<>> /\ at = 0 /\ res = "open"
Break == /\ at = 0 /\ Len(faults) < MaxFaults
         /\ \E n \in 1..Len(Layers) : \E f \in Sites(Layers[n]) : faults' = Append(faults, f)
         /\ UNCHANGED <<at, res>>
Begin == at = 0 /\ at' = 1 /\ UNCHANGED <<faults, res>>
Pass == /\ res = "open" /\ at \in 1..Len(Layers)
        /\ at' = at + 1
        /\ res' = IF at = Len(Layers) THEN "loaded" ELSE "open"
        /\ UNCHANGED faults
Refuse == res = "open" /\ at \in 1..Len(Layers) /\ Faulty(at) /\ res' = "refused" /\ UNCHANGED <<faults, at>>
Next == Break \/ Begin \/ Pass \/ Refuse
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin) /\ WF_vars(Pass \/ Refuse)

SoundLoads == faults = <<>> => res # "refused"
NotBelow == res = "refused" => Faulty(at)
Ends == <>(res \in {"loaded", "refused"})
Emit == (at = 1 /\ res = "open" /\ Len(faults) = MaxFaults /\ "EMIT" \in DOMAIN IOEnv) => PrintT("@FAULT " \o ToJson(faults))
=============================================================================
