----------------------------- MODULE DateWriter -----------------------------
(***************************************************************************)
(* Writes date-times, field by field, in every layout that RFC 5322 knows, *)
(* and keeps the fields that the text is meant to denote.                  *)
(***************************************************************************)
EXTENDS Writer

CONSTANT Conf
\* gaps: chance of 10 of comments and folds; two: chance of 10 of a two-digit year;
\* alpha: of a zone name; nozone: of no zone; edge: of extreme values

VARIABLES written, stage, fields, clockYear

AnyCase3(cs) == CASE Chance(1, 2) -> << cs[1] - 32 >> \o Tail(cs)
                  [] Chance(1, 3) -> cs
                  [] OTHER -> Chars(Len(cs), LAMBDA k : IF Chance(1, 2) THEN cs[k] - 32 ELSE cs[k])
AnyCaseZ(cs) == IF Chance(1, 2) THEN Chars(Len(cs), LAMBDA k : cs[k] - 32)
                ELSE Chars(Len(cs), LAMBDA k : IF Chance(1, 2) THEN cs[k] - 32 ELSE cs[k])
DayNames == << <<109,111,110>>, <<116,117,101>>, <<119,101,100>>, <<116,104,117>>, <<102,114,105>>,
               <<115,97,116>>, <<115,117,110>> >>
RECURSIVE Digits(_, _)
Digits(v, n) == IF n = 0 THEN << >> ELSE Digits(v \div 10, n - 1) \o << 48 + (v % 10) >>
OneOrTwo(v) == IF v < 10 /\ Chance(1, 3) THEN Digits(v, 1) ELSE Digits(v, 2)

B(q)  == IF Chance(Conf.gaps, 10) THEN Gap(q) ELSE << 32 >>               \* a gap
B0(q) == IF Chance(Conf.gaps, 20) THEN Gap(q) ELSE << >>                  \* a gap or nothing
F(q)  == IF Chance(Conf.gaps, 10) THEN TLCEval(Fws(q)) ELSE << 32 >>      \* white space
BE(q) == IF Chance(1, 4) THEN B0(q) ELSE B(q)                             \* a gap, seldom nothing

Blank0 == [day |-> 0, mon |-> 0, year |-> 0, hour |-> 0, min |-> 0, sec |-> 0, off |-> 0, zone |-> Utc]
Now(q) == IF Chance(1, 2) THEN 2000 + RandomElement(0..99) ELSE RandomElement({2000, 2001, 2025, 2026, 2027, 2049, 2050, 2098, 2099})
Init == written = << >> /\ stage = "dow" /\ fields = Blank0 /\ clockYear = 2026

Write(piece, next) == written' = written \o piece /\ stage' = next /\ UNCHANGED clockYear
Keep == UNCHANGED fields

\* The name of the day is not looked at: it may be wrong.
DayOfWeek ==
  /\ stage = "dow"
  /\ \/ Write(<< >>, "day")
     \/ Write(B0(0) \o AnyCase3(DayNames[RandomElement(1..7)]) \o B0(1) \o << 44 >>, "day")
  /\ Keep
Year4(q) == CASE Chance(Conf.edge, 10) -> RandomElement({1, 4, 99, 100, 400, 999, 1000, 1582, 1752, 1899, 1900, 1969, 1970,
                                                         1999, 2000, 2004, 2038, 2100, 2262, 2400, 9996, 9999})
              [] Chance(1, 2) -> RandomElement(1970..2040)
              [] OTHER -> RandomElement(1..9999)
Date ==
  /\ stage = "day"
  /\ \E two \in {Chance(Conf.two, 10)} :
     \E year \in {IF two THEN CASE Chance(1, 2) -> clockYear - RandomElement(0..99)   \* the last hundred years
                                [] OTHER -> clockYear - RandomElement({0, 1, 98, 99}) ELSE Year4(0)},
        m \in {IF Chance(1, 4) THEN 2 ELSE RandomElement(1..12)} :
       /\ two => year >= 1900
       /\ \E d \in {CASE Chance(Conf.edge, 10) -> DaysIn(year, m)
                      [] Chance(1, 5) -> 1
                      [] OTHER -> RandomElement(1..DaysIn(year, m))} :
            /\ fields' = [fields EXCEPT !.day = d, !.mon = m, !.year = year]
            \* four digits need white space around them, and two digits do not
            /\ Write(BE(0) \o OneOrTwo(d) \o BE(0) \o AnyCase3(MonthTexts[m])
                     \o (IF two THEN B0(0) \o Digits(year % 100, 2) \o BE(0)
                         ELSE F(0) \o Digits(year, 4) \o F(0)), "time")
Time ==
  /\ stage = "time"
  /\ \E hh \in {RandomElement(0..23)}, mm \in {RandomElement(0..59)} :
     \E ss \in {CASE Chance(1, 4) -> -1 [] Chance(Conf.edge, 20) -> RandomElement({0, 59, 60}) [] OTHER -> RandomElement(0..59)} :
       /\ fields' = [fields EXCEPT !.hour = hh, !.min = mm, !.sec = IF ss < 0 THEN 0 ELSE ss]
       /\ Write(OneOrTwo(hh) \o B0(0) \o << 58 >> \o B0(0) \o Digits(mm, 2)
                \o (IF ss < 0 THEN << >> ELSE B0(0) \o << 58 >> \o B0(0) \o Digits(ss, 2)), "zone")
ZonePool == << <<117,116>>, <<117,116,99>>, <<103,109,116>>, <<101,115,116>>, <<101,100,116>>, <<99,115,116>>,
               <<99,100,116>>, <<109,115,116>>, <<109,100,116>>, <<112,115,116>>, <<112,100,116>> >>
\* RFC 5322, 4.3; hours west of Greenwich are negative.
ZonePoolHours == << 0, 0, 0, -5, -4, -6, -5, -7, -6, -8, -7 >>
Zone ==
  /\ stage = "zone"
  /\ CASE Chance(Conf.nozone, 10) -> Write(B0(0), "done") /\ Keep
       [] Chance(Conf.alpha, 10) ->
            \E k \in {RandomElement(1..11)} : \E z \in {AnyCaseZ(ZonePool[k])} :
              /\ fields' = [fields EXCEPT !.off = 3600 * ZonePoolHours[k], !.zone = z]
              /\ Write(BE(0) \o z \o B0(0), "done")
       [] OTHER ->
            \E hh \in {IF Chance(Conf.edge, 10) THEN RandomElement(0..23) ELSE RandomElement(0..14)},
               mm \in {CASE Chance(1, 3) -> 0 [] Chance(1, 2) -> RandomElement({15, 30, 45}) [] OTHER -> RandomElement(0..59)},
               sg \in {RandomElement({1, 1, 2, 3})} :        \* plus, minus, no sign
              \E digits \in {Digits(hh, 2) \o Digits(mm, 2)} :
                /\ fields' = [fields EXCEPT !.off = (IF sg = 2 THEN -1 ELSE 1) * (3600 * hh + 60 * mm),
                                            !.zone = << IF sg = 2 THEN 45 ELSE 43 >> \o digits]
                /\ Write(F(0) \o (CASE sg = 1 -> << 43 >> [] sg = 2 -> << 45 >> [] OTHER -> << >>) \o digits \o B0(0), "done")

DateView(d) == [instant |-> Instant(d), local |-> Instant([d EXCEPT !.off = 0]), off |-> d.off, zone |-> d.zone]
Finished == [goal |-> "dateTime", text |-> written, year |-> clockYear, want |-> DateView(fields)]
Emit ==
  /\ stage = "done"
  /\ \E r \in { Run("dateTime", written, [reader |-> "none", year |-> clockYear]) } :
       IF r.ok /\ r.v = fields THEN PrintT(ToJson(Finished))
       ELSE PrintT(ToJson([disagree |-> Finished, machine |-> r]))
  /\ written' = << >> /\ stage' = "dow" /\ fields' = Blank0 /\ clockYear' = Now(0)

Next == DayOfWeek \/ Date \/ Time \/ Zone \/ Emit
=============================================================================
