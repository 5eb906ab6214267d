------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* Dates, times of day and zones: the texts of a date-time to numbers, and *)
(* the proleptic Gregorian calendar.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

\* The number written in a sequence of ASCII digits.
Num(v) == FoldLeft(LAMBDA a, d : 10 * a + (d - 48), 0, v)

\* Two digits denote a year of 1900 + 0..99 or 2000 + 0..99: the last one that
\* is not after the current year (of the twenty-first century).
YearOf(v, now) ==
  IF Len(v) = 2 THEN (IF Num(v) > now % 100 THEN 1900 ELSE 2000) + Num(v) ELSE Num(v)

MonthTexts == << <<106,97,110>>, <<102,101,98>>, <<109,97,114>>, <<97,112,114>>, <<109,97,121>>,
                 <<106,117,110>>, <<106,117,108>>, <<97,117,103>>, <<115,101,112>>, <<111,99,116>>,
                 <<110,111,118>>, <<100,101,99>> >>
MonthOf(v) == CHOOSE m \in 1..12 : MonthTexts[m] = v

\* [+-]hhmm in seconds; no sign means plus.
OffsetOf(v) ==
  LET n == Len(v)
      s == 3600 * Num(SubSeq(v, n - 3, n - 2)) + 60 * Num(SubSeq(v, n - 1, n))
  IN IF v[1] = 45 THEN -s ELSE s
OffsetName(v) == IF v[1] \in {43, 45} THEN v ELSE << 43 >> \o v

\* Zone names (lower case): UT UTC GMT, and the four zones of North America.
ZoneHours == << << <<117,116>>, 0 >>, << <<117,116,99>>, 0 >>, << <<103,109,116>>, 0 >>,
                << <<101,115,116>>, -5 >>, << <<101,100,116>>, -4 >>,
                << <<99,115,116>>, -6 >>,  << <<99,100,116>>, -5 >>,
                << <<109,115,116>>, -7 >>, << <<109,100,116>>, -6 >>,
                << <<112,115,116>>, -8 >>, << <<112,100,116>>, -7 >> >>
ZoneOffset(v) == 3600 * (LET k == CHOOSE k \in 1..Len(ZoneHours) : ZoneHours[k][1] = v IN ZoneHours[k][2])

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m = 2 -> IF IsLeap(y) THEN 29 ELSE 28
                  [] m \in {4, 6, 9, 11} -> 30
                  [] OTHER -> 31

\* A date-time whose fields are all in range; 60 is a leap second.
InRange(d) == /\ d.day \in 1..DaysIn(d.year, d.mon)
              /\ d.hour \in 0..23 /\ d.min \in 0..59 /\ d.sec \in 0..60

\* Days since 1970-01-01 (Gregorian, proleptic), y >= 0.
Days(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400
      yoe == yy - era * 400
      mp  == IF m > 2 THEN m - 3 ELSE m + 9
      doy == (153 * mp + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468

\* The instant, as <<days, seconds of the day>> since 1970-01-01T00:00:00 UTC
\* (TLC's integers are too small for seconds).
Instant(d) ==
  LET s == 3600 * d.hour + 60 * d.min + d.sec - d.off
      q == s \div 86400
  IN << Days(d.year, d.mon, d.day) + q, s - 86400 * q >>
=============================================================================
