---------------------------- MODULE CalendarWalk ----------------------------
(***************************************************************************)
(* The calendar checked against a clock that only knows how many days a    *)
(* month has: from the first of January of every year it walks day by day  *)
(* to the next one.  At every day the conversions of Calendar must give    *)
(* what the clock shows, both textual forms must be read back as what they *)
(* were made of, and the walk must end where the next year starts - so the *)
(* years are a chain.                                                      *)
(***************************************************************************)
EXTENDS Calendar, FiniteSets, IOUtils
CONSTANTS Years, Zones
VARIABLES start, y, m, d, days, week
vars == <<start, y, m, d, days, week>>
Init == /\ start \in Years
        /\ y = start /\ m = 1 /\ d = 1 /\ days = YearStart(start) /\ week = WeekDay(YearStart(start))
Month == IF m = 2 THEN (IF y % 400 = 0 THEN 29 ELSE IF y % 100 = 0 THEN 28 ELSE IF y % 4 = 0 THEN 29 ELSE 28)
         ELSE IF m < 8 THEN 30 + (m % 2) ELSE 31 - (m % 2)
Next == /\ y = start
        /\ days' = days + 1 /\ week' = (week + 1) % 7
        /\ IF d < Month THEN d' = d + 1 /\ UNCHANGED <<m, y>>
           ELSE d' = 1 /\ IF m < 12 THEN m' = m + 1 /\ UNCHANGED y ELSE m' = 1 /\ y' = y + 1
        /\ UNCHANGED start
Spec == Init /\ [][Next]_vars
Origin == start = 1970 => YearStart(1970) = 0 /\ WeekDay(0) = 4
Right == /\ CivilOf(days) = <<y, m, d>> /\ DaysOf(y, m, d) = days /\ WeekDay(days) = week
         /\ MonthDays(y, m) = Month
(* Days when some clock is put on or back: by the Sundays of the month.     *)
TurnCet == m \in {3, 10} /\ week = 0 /\ d + 7 > Month
TurnSouth == week = 6 /\ ((m \in {4, 10} /\ d < 7) \/ (m \in {3, 9} /\ d = Month))
TurnWest == week = 0 /\ ((m = 3 /\ d \in 8..14) \/ (m = 11 /\ d < 8))
Edge == d = 1 \/ d = Month \/ TurnCet \/ TurnSouth \/ TurnWest
Seconds == IF ~Edge THEN {43200} ELSE {0, 59, 3599, 3600, 16199, 16200, 19799, 19800, 43200, 59399, 59400, 82800, 86399}
(* Texts and packed dates are read back, except the ones that mean never.   *)
IsoBack == (y = start /\ y < 10000) => \A s \in (IF Edge THEN {0, 43200, 86399} ELSE {45296}) : LET t == SecondsText(days, s) IN
    /\ MomentOf(t) = <<days, s>>
    /\ t # "0" => IsIso(IsoText(t)) /\ (IsoText(t) # NeverText => IsoTime(IsoText(t)) = t)
KdbBack == (y = start /\ y < 4095 /\ days > 0) => \A z \in (IF Edge THEN Zones ELSE {"CET"}) : \A s \in Seconds : LET t == SecondsText(days, s) b == KdbBytes(z, t) IN
    /\ \A i \in 1..5 : b[i] \in 0..255
    /\ KdbValid(b)
    /\ LET f == Unpack(b) IN b = PackFields(f.y, f.mo, f.d, f.h, f.mi, f.s)
    /\ b # NeverBytes => /\ t \in KdbTimes(z, b)
                         /\ KdbTimes(z, b) \subseteq {t} \/ (Cardinality(KdbTimes(z, b)) = 2
                              /\ CASE z = "CET" -> TurnCet /\ m = 10 [] z = "ADL" -> TurnSouth /\ m \in 3..4 [] z = "NFL" -> TurnWest /\ m = 11 [] OTHER -> FALSE)
(* Summer time: exactly from the last Sunday of March to that of October.   *)
SummerRight == (y = start) =>
    /\ (m \notin 3..10 => ~Summer(days, 43200)) /\ (m \in 4..9 => Summer(days, 43200))
    /\ (Summer(days, 86399) # Summer(days, 0) <=> TurnCet)
    /\ (SummerSouth(days, 86399) # SummerSouth(days, 0) <=> TurnSouth)
    /\ (m \in {11, 12, 1, 2} => SummerSouth(days, 43200)) /\ (m \in 5..8 => ~SummerSouth(days, 43200))
    /\ (SummerWest(days, 86399) # SummerWest(days, 0) <=> TurnWest)
    /\ (m \in {12, 1, 2} => ~SummerWest(days, 43200)) /\ (m \in 4..10 => SummerWest(days, 43200))
Emit == (Edge /\ y = start /\ "EMIT" \in DOMAIN IOEnv) =>
        PrintT("@DAY " \o ToString(days) \o " " \o (IF TurnCet THEN "cet" ELSE IF TurnSouth THEN "adl" ELSE IF TurnWest THEN "nfl" ELSE "edge"))
=============================================================================
