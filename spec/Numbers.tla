------------------------------ MODULE Numbers ------------------------------
(***************************************************************************)
(* Laws of the parts of the specification that calculate: the calendar,    *)
(* zones, two-digit years, UTF-8 and the encodings of RFC 2047.  Each law  *)
(* is checked for all values of n in 0..Upto.                               *)
(***************************************************************************)
EXTENDS Mime, Calendar, FiniteSets

CONSTANT Upto
VARIABLE n
NInit == n = 0
NNext == n' \in (16 * n + 1)..(16 * n + 16) /\ n' <= Upto       \* a tree, for TLC's workers to share

D2(k) == << 48 + (k \div 10), 48 + (k % 10) >>
D4(k) == D2(k \div 100) \o D2(k % 100)

\* Year n: its days follow each other, it has 365 or 366 of them, and 1970 began on day 0.
YearLaw ==
  /\ \A m \in 1..11 : Days(n, m + 1, 1) = Days(n, m, DaysIn(n, m)) + 1
  /\ \A m \in 1..12 : \A d \in 1..(DaysIn(n, m) - 1) : Days(n, m, d + 1) = Days(n, m, d) + 1
  /\ Days(n + 1, 1, 1) = Days(n, 12, 31) + 1
  /\ n = 1970 => Days(n, 1, 1) = 0
  /\ n = 2000 => Days(n, 3, 1) = 11017
  /\ YearOf(D4(n), 2026) = n
\* The year that two digits mean is the last one, not after the current one, that ends in them
\* (for the years of this century; the current year is 2000 + n).
CenturyLaw ==
  \A yy \in 0..99 : LET y == YearOf(D2(yy), 2000 + n) IN
    /\ y % 100 = yy /\ y \in 1900..(2000 + n)
    /\ ~\E z \in (y + 1)..(2000 + n) : z % 100 = yy
\* Minute n of a day.
ClockLaw ==
  LET hh == n \div 60  mm == n % 60
      d == [day |-> 15, mon |-> 6, year |-> 2020, hour |-> hh, min |-> mm, sec |-> 7, off |-> 0]
      i == Instant(d)
  IN /\ i = << Days(2020, 6, 15), 60 * n + 7 >>
     /\ \A off \in { -86340, -3600, -60, 0, 60, 1800, 43200, 86340 } :
          LET j == Instant([d EXCEPT !.off = off])
          IN 86400 * (j[1] - i[1]) + j[2] - i[2] = -off /\ j[2] \in 0..86399
     /\ Instant([d EXCEPT !.sec = 60]) = Instant(IF mm < 59 THEN [d EXCEPT !.min = mm + 1, !.sec = 0]
                                                  ELSE IF hh < 23 THEN [d EXCEPT !.hour = hh + 1, !.min = 0, !.sec = 0]
                                                  ELSE [d EXCEPT !.day = 16, !.hour = 0, !.min = 0, !.sec = 0])
     /\ OffsetOf(<< 43 >> \o D2(hh) \o D2(mm)) = 60 * n /\ OffsetOf(<< 45 >> \o D2(hh) \o D2(mm)) = -60 * n
     /\ OffsetOf(D2(hh) \o D2(mm)) = 60 * n /\ OffsetName(D2(hh) \o D2(mm)) = OffsetName(<< 43 >> \o D2(hh) \o D2(mm))

\* The characters 64 n .. 64 n + 63, as UTF-8 (RFC 3629), read back.
Lead(b) == CASE b < 128 -> 0 [] b \in 194..223 -> 1 [] b \in 224..239 -> 2 [] b \in 240..244 -> 3
FromUtf8(bs) ==
  LET k == Lead(bs[1])
      v == FoldLeft(LAMBDA a, b : 64 * a + (b - 128), CASE k = 0 -> bs[1] [] k = 1 -> bs[1] - 192 [] k = 2 -> bs[1] - 224 [] k = 3 -> bs[1] - 240, Tail(bs))
  IN IF Len(bs) # k + 1 \/ \E m \in 2..Len(bs) : bs[m] \notin 128..191 THEN -1 ELSE v
Utf8Law == \A ch \in (64 * n)..(64 * n + 63) : ch < 1114112 /\ ch \notin 55296..57343 => FromUtf8(Utf8(ch)) = ch

\* The bytes n \div 256, n % 256 and others, encoded and decoded.
B64Digit(d) == CASE d < 26 -> 65 + d [] d < 52 -> 71 + d [] d < 62 -> d - 4 [] d = 62 -> 43 [] OTHER -> 47
B64(bs) ==
  LET bit(k) == IF (k - 1) \div 8 < Len(bs) THEN (bs[(k - 1) \div 8 + 1] \div 2^(7 - ((k - 1) % 8))) % 2 ELSE 0
      len == (8 * Len(bs) + 5) \div 6
  IN [k \in 1..len |-> B64Digit(32 * bit(6*k-5) + 16 * bit(6*k-4) + 8 * bit(6*k-3) + 4 * bit(6*k-2) + 2 * bit(6*k-1) + bit(6*k))]
     \o [k \in 1..((4 - (len % 4)) % 4) |-> EQ]
Hx(d) == IF d < 10 THEN 48 + d ELSE 55 + d
Q(bs) == FlattenSeq([k \in 1..Len(bs) |-> << EQ, Hx(bs[k] \div 16), Hx(bs[k] % 16) >>])
QLow(bs) == FlattenSeq([k \in 1..Len(bs) |-> << EQ, LowerC(Hx(bs[k] \div 16)), LowerC(Hx(bs[k] % 16)) >>])
Word(cs, en, t) == << EQ, QM >> \o cs \o << QM, en, QM >> \o t \o << QM, EQ >>
CodeLaw ==
  LET x == n \div 256  y == n % 256
  IN \A bs \in { << x >>, << x, y >>, << y, 0, x >>, << 255, x, y >>, << x, y, y, x, 7 >> } :
       /\ BDecode(B64(bs)) = Some(bs) /\ QDecode(Q(bs)) = Some(bs) /\ QDecode(QLow(bs)) = Some(bs)
       /\ \A rd \in {"none", "base", "alt", "any"} :
            /\ DecodeWord(Word(CsUtf8, 66, B64(bs)), rd) = Some(bs)
            /\ DecodeWord(Word(CsUtf8, 113, Q(bs)), rd) = Some(bs)
            /\ DecodeWord(Word(CsLatin1, 98, B64(bs)), rd).ok
       \* a character less, and the text is no longer one
       /\ BDecode(SubSeq(B64(bs), 1, Len(B64(bs)) - 1)) = None
       /\ QDecode(SubSeq(Q(bs), 1, Len(Q(bs)) - 1)) = None
       \* Latin-1: as many characters as bytes
       /\ Cardinality({ k \in 1..Len(Latin1ToUtf8(bs)) : Latin1ToUtf8(bs)[k] \notin 128..191 }) = Len(bs)
=============================================================================
