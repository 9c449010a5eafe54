------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* Civil dates, and the two textual/binary forms in which the file formats *)
(* store them.  A moment is <<days, secs>> since 1970-01-01T00:00:00Z (TLC *)
(* integers have 32 bits); in databases it is a decimal string of seconds, *)
(* "0" meaning "no time".                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Char(s, i) == SubSeq(s, i, i)
DigitTexts == {"0","1","2","3","4","5","6","7","8","9"}
Dg == "0" :> 0 @@ "1" :> 1 @@ "2" :> 2 @@ "3" :> 3 @@ "4" :> 4 @@ "5" :> 5 @@ "6" :> 6 @@ "7" :> 7 @@ "8" :> 8 @@ "9" :> 9
\* Decimal strings of one or two digits, as a table (TLC evaluates it once).
SmallTexts == DigitTexts \cup {a \o b : a \in DigitTexts, b \in DigitTexts}
Small == [s \in SmallTexts |-> IF Len(s) = 1 THEN Dg[s] ELSE Dg[Char(s, 1)] * 10 + Dg[Char(s, 2)]]

RECURSIVE AllDigits(_), NatOf(_)
AllDigits(s) == IF Len(s) <= 2 THEN s \in SmallTexts
                ELSE SubSeq(s, Len(s) - 1, Len(s)) \in SmallTexts /\ AllDigits(SubSeq(s, 1, Len(s) - 2))
NatOf(s) == IF Len(s) = 0 THEN 0 ELSE IF Len(s) <= 2 THEN Small[s]
            ELSE NatOf(SubSeq(s, 1, Len(s) - 2)) * 100 + Small[SubSeq(s, Len(s) - 1, Len(s))]

Pad2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Pad3(n) == IF n < 10 THEN "00" \o ToString(n) ELSE IF n < 100 THEN "0" \o ToString(n) ELSE ToString(n)
Pad4(n) == IF n < 1000 THEN "0" \o Pad3(n) ELSE ToString(n)

-----------------------------------------------------------------------------
(* Decimal seconds <-> <<days, secs>>, without ever exceeding 32 bits       *)
(* (86400 = 432 * 200).                                                     *)
Since(d, s) ==
    LET q == d * 432 + s \div 200
        r == s % 200
        hi == q \div 5
        lo == (q % 5) * 200 + r
    IN IF hi = 0 THEN ToString(lo) ELSE ToString(hi) \o Pad3(lo)
\* The seconds before 1970 are negative.
SecondsText(d, s) == IF d >= 0 THEN Since(d, s) ELSE "-" \o (IF s = 0 THEN Since(-d, 0) ELSE Since(-d - 1, 86400 - s))

After(text) ==
    LET n == Len(text)
        hi == IF n > 3 THEN NatOf(SubSeq(text, 1, n - 3)) ELSE 0
        lo == IF n > 3 THEN NatOf(SubSeq(text, n - 2, n)) ELSE NatOf(text)
        q == hi * 5 + lo \div 200
    IN <<q \div 432, (q % 432) * 200 + (lo % 200)>>
MomentOf(text) ==
    IF Len(text) = 0 \/ Char(text, 1) # "-" THEN After(text)
    ELSE LET m == After(SubSeq(text, 2, Len(text))) IN IF m[2] = 0 THEN <<-m[1], 0>> ELSE <<-m[1] - 1, 86400 - m[2]>>

-----------------------------------------------------------------------------
(* Proleptic Gregorian calendar.                                            *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28)
                   ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
LeapsBefore(y) == (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400
YearStart(y) == (y - 1970) * 365 + LeapsBefore(y) - LeapsBefore(1970)
CumDays == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
MonthStart(y, m) == CumDays[m] + IF m > 2 /\ Leap(y) THEN 1 ELSE 0
DaysOf(y, m, d) == YearStart(y) + MonthStart(y, m) + d - 1
CivilOf(days) ==                                  \* <<year, month, day>>
    LET g == 1970 + (days * 400) \div 146097       \* at most one year off
        y == CHOOSE v \in (g - 1)..(g + 1) : YearStart(v) <= days /\ days < YearStart(v + 1)
        r == days - YearStart(y)
        m == CHOOSE k \in 1..12 : /\ MonthStart(y, k) <= r
                                  /\ r < MonthStart(y, k) + MonthDays(y, k)
    IN <<y, m, r - MonthStart(y, m) + 1>>
WeekDay(days) == (days + 4) % 7                   \* 0 = Sunday

ValidDate(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= MonthDays(y, m)

-----------------------------------------------------------------------------
(* KDBX: ISO 8601 in UTC; one text means "never".                           *)
NeverText == "2999-12-28T22:59:59Z"
IsoText(t) ==
    IF t = "0" THEN NeverText
    ELSE LET m == MomentOf(t)
             c == CivilOf(m[1])
         IN Pad4(c[1]) \o "-" \o Pad2(c[2]) \o "-" \o Pad2(c[3]) \o "T" \o Pad2(m[2] \div 3600) \o ":"
            \o Pad2((m[2] % 3600) \div 60) \o ":" \o Pad2(m[2] % 60) \o "Z"

IsIso(x) ==
    /\ Len(x) = 20
    /\ Char(x, 5) = "-" /\ Char(x, 8) = "-" /\ Char(x, 11) = "T"
    /\ Char(x, 14) = ":" /\ Char(x, 17) = ":" /\ Char(x, 20) = "Z"
    /\ {SubSeq(x, 1, 2), SubSeq(x, 3, 4), SubSeq(x, 6, 7), SubSeq(x, 9, 10), SubSeq(x, 12, 13), SubSeq(x, 15, 16),
        SubSeq(x, 18, 19)} \subseteq SmallTexts
    /\ LET y == NatOf(SubSeq(x, 1, 4))
           m == NatOf(SubSeq(x, 6, 7))
           d == NatOf(SubSeq(x, 9, 10))
       IN /\ y >= 1000 /\ ValidDate(y, m, d)
          /\ NatOf(SubSeq(x, 12, 13)) <= 23
          /\ NatOf(SubSeq(x, 15, 16)) <= 59
          /\ NatOf(SubSeq(x, 18, 19)) <= 59

IsoTime(x) ==                                     \* what a reader makes of the text
    IF x = NeverText \/ ~IsIso(x) THEN "0"
    ELSE SecondsText(DaysOf(NatOf(SubSeq(x, 1, 4)), NatOf(SubSeq(x, 6, 7)), NatOf(SubSeq(x, 9, 10))),
                     NatOf(SubSeq(x, 12, 13)) * 3600 + NatOf(SubSeq(x, 15, 16)) * 60 + NatOf(SubSeq(x, 18, 19)))

-----------------------------------------------------------------------------
(* KDB: local calendar fields in five bytes                                 *)
(*   00YYYYYY YYYYYYMM MMDDDDDH HHHHMMMM MMSSSSSS                           *)
(* Zones: CET is one hour east, two between 01:00 UTC on the last Sundays   *)
(* of March and October; ADL (south) is 9:30 east, 10:30 from the first     *)
(* Sunday of October, 2:00, to that of April, 3:00; NFL is 3:30 west, 2:30  *)
(* from the second Sunday of March, 2:00, to the first of November, 2:00;   *)
(* the others have a fixed distance.                                        *)
LastSunday(y, m) == LET e == DaysOf(y, m, MonthDays(y, m)) IN e - WeekDay(e)
Summer(d, s) ==
    LET y == CivilOf(d)[1]
        a == LastSunday(y, 3)
        b == LastSunday(y, 10)
    IN /\ (d > a \/ (d = a /\ s >= 3600))
       /\ (d < b \/ (d = b /\ s < 3600))
NthSunday(y, m, n) == LET f == DaysOf(y, m, 1) IN f + ((7 - WeekDay(f)) % 7) + (7 * (n - 1))
Past(d, s, a, x) == d > a \/ (d = a /\ s >= x)
SummerSouth(d, s) == LET y == CivilOf(d)[1] IN
    Past(d, s, NthSunday(y, 10, 1) - 1, 59400) \/ ~Past(d, s, NthSunday(y, 4, 1) - 1, 59400)
SummerWest(d, s) == LET y == CivilOf(d)[1] IN
    Past(d, s, NthSunday(y, 3, 2), 19800) /\ ~Past(d, s, NthSunday(y, 11, 1), 16200)
EastOf(zone, d, s) == CASE zone = "UTC" -> 0
                        [] zone = "CET" -> IF Summer(d, s) THEN 7200 ELSE 3600
                        [] zone = "IST" -> 19800
                        [] zone = "EST" -> -18000
                        [] zone = "NPT" -> 20700
                        [] zone = "ADL" -> IF SummerSouth(d, s) THEN 37800 ELSE 34200
                        [] zone = "NFL" -> IF SummerWest(d, s) THEN -9000 ELSE -12600
Shift(d, s, off) == LET v == s + off IN
    IF v < 0 THEN <<d - 1, v + 86400>> ELSE IF v >= 86400 THEN <<d + 1, v - 86400>> ELSE <<d, v>>

NeverBytes == <<46, 223, 57, 126, 251>>           \* 2999-12-28 23:59:59
PackFields(y, mo, d, h, mi, s) ==
    <<y \div 64, (y % 64) * 4 + mo \div 4, (mo % 4) * 64 + d * 2 + h \div 16,
      (h % 16) * 16 + mi \div 4, (mi % 4) * 64 + s>>
Unpack(b) == [y |-> b[1] * 64 + b[2] \div 4,
              mo |-> (b[2] % 4) * 4 + b[3] \div 64,
              d |-> (b[3] \div 2) % 32,
              h |-> (b[3] % 2) * 16 + b[4] \div 16,
              mi |-> (b[4] % 16) * 4 + b[5] \div 64,
              s |-> b[5] % 64]
KdbBytes(zone, t) ==
    IF t = "0" THEN NeverBytes
    ELSE LET m == MomentOf(t)
             l == Shift(m[1], m[2], EastOf(zone, m[1], m[2]))
             c == CivilOf(l[1])
         IN PackFields(c[1], c[2], c[3], l[2] \div 3600, (l[2] % 3600) \div 60, l[2] % 60)

(* The moments whose local form is the given one: usually one, none in the  *)
(* hour skipped in spring, two in the hour repeated in autumn.              *)
KdbMoments(zone, b) ==
    LET f == Unpack(b)
        ld == DaysOf(f.y, f.mo, f.d)
        ls == f.h * 3600 + f.mi * 60 + f.s
        cand == {Shift(ld, ls, -off) : off \in {0, 3600, 7200, 19800, -18000, 20700, 34200, 37800, -12600, -9000}}
    IN {m \in cand : Shift(m[1], m[2], EastOf(zone, m[1], m[2])) = <<ld, ls>>}
KdbValid(b) == LET f == Unpack(b) IN
    f.y >= 1970 /\ f.mo \in 1..12 /\ f.d >= 1 /\ f.d <= MonthDays(f.y, f.mo) /\ f.h <= 23 /\ f.mi <= 59 /\ f.s <= 59
KdbTimes(zone, b) ==                              \* possible readings, as decimal seconds
    IF b = NeverBytes \/ ~KdbValid(b) THEN {"0"}
    ELSE {IF m[1] < 0 THEN "0" ELSE SecondsText(m[1], m[2]) : m \in KdbMoments(zone, b)}
KdbTime(zone, b) == LET r == KdbTimes(zone, b) IN IF r = {} THEN "?" ELSE CHOOSE x \in r : TRUE
=============================================================================
