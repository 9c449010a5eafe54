--------------------------- MODULE CalendarTrace ----------------------------
(***************************************************************************)
(* Recorded dates of files.  A row of a written file is <<place, moment    *)
(* given, form in the file, moment read back>>, with w and z the zones of  *)
(* writing and reading; a row of a hand-made file is <<place, form in the  *)
(* file, moment read>>.  Forms are texts (KDBX) or five bytes (KDB).       *)
(***************************************************************************)
EXTENDS TraceBase
K == INSTANCE Calendar
(* May a date of KDB be read as t?  Dates that no calendar has are free.    *)
KdbMay(zone, b, t) ==
    IF b = K!NeverBytes THEN t = "0"
    ELSE LET f == K!Unpack(b) IN
         ~(f.y \in 1969..4095 /\ f.mo \in 1..12 /\ f.d >= 1 /\ f.d <= K!MonthDays(f.y, f.mo) /\ f.h <= 23 /\ f.mi <= 59 /\ f.s <= 59)
         \/ LET ms == K!KdbMoments(zone, b) IN
            ms = {} \/ \E m \in ms : m[1] < 0 \/ K!SecondsText(m[1], m[2]) = t
IsoMay(x, t) == IF x = K!NeverText THEN t = "0" ELSE ~K!IsIso(x) \/ K!IsoTime(x) = t
(* Texts that are no date at all are read as no time.                       *)
Row(fmt, w, z, r) ==
    Chk("date", IF fmt = "kdbx" THEN r[3] = K!IsoText(r[2]) /\ IsoMay(r[3], r[4]) ELSE r[3] = K!KdbBytes(w, r[2]) /\ KdbMay(z, r[3], r[4]),
        [fmt |-> fmt, write |-> w, read |-> z, row |-> r, want |-> IF fmt = "kdbx" THEN K!IsoText(r[2]) ELSE ToString(K!KdbBytes(w, r[2]))])
Read(fmt, z, r) ==
    Chk("date read", IF fmt = "kdbx" THEN IsoMay(r[2], r[3]) ELSE KdbMay(z, r[2], r[3]), [fmt |-> fmt, zone |-> z, row |-> r])
File(e) == /\ Eq("outcome", e.out, "ok")
           /\ \A i \in 1..Len(e.rows) : Row(e.fmt, e.w, e.z, e.rows[i])
Hand(e) == /\ Chk("outcome", e.out = "ok" \/ (e.wild = "true" /\ e.out \notin {"crash", "hang", "null", "other"}), [out |-> e.out])
           /\ (e.out = "ok" => \A i \in 1..Len(e.rows) : Read(e.fmt, e.z, e.rows[i]))
Init == Start
Next == More /\ Advance /\ (IF Ev[l].e = "file" THEN File(Ev[l]) ELSE Hand(Ev[l]))
=============================================================================
