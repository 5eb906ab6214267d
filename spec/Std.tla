-------------------------------- MODULE Std --------------------------------
(***************************************************************************)
(* What Go's standard library writes: net/mail's Address.String (with      *)
(* package mime's encoded words), joined by ", ", and package time's       *)
(* formats.  It is the other end of the wire: the laws say that Rfc5322    *)
(* reads all of it back.                                                   *)
(*                                                                         *)
(* Texts are sequences of code points, as in module Machine.               *)
(***************************************************************************)
EXTENDS Rfc5322

----------------------------------------------------------------------------
\* Addresses
AtextChars == (48..57) \cup (65..90) \cup (97..122) \cup { 33, 35, 36, 37, 38, 39, 42, 43, 45, 47, 61, 63, 94, 95, 96, 123, 124, 125, 126 }
IsAtext(ch) == ch \in AtextChars \/ ch >= 128
\* A dot is fine between other characters.
BareLocal(l) == \A k \in 1..Len(l) : IsAtext(l[k]) \/ (l[k] = 46 /\ k > 1 /\ l[k-1] # 46 /\ k < Len(l))
Printable(ch) == ch \in 33..126 \/ ch >= 128
\* Control characters are left out.
StdQuote(s) == << 34 >> \o FlattenSeq([k \in 1..Len(s) |->
   IF s[k] \in {34, 92} THEN << 92, s[k] >> ELSE IF Printable(s[k]) \/ s[k] \in {9, 32} THEN << s[k] >> ELSE << >>]) \o << 34 >>

\* "#$%&'(),.:;<>@[]^`{|}~ may not stand in a Q word in a name.
NotInQ == { 34, 35, 36, 37, 38, 39, 40, 41, 44, 46, 58, 59, 60, 62, 64, 91, 93, 94, 96, 123, 124, 125, 126 }
MaxContent == 63          \* 75 characters a word, without =?utf-8?q? and ?=
MaxB == 45                \* bytes that make 63 characters, or less, of base64

B64Char(d) == CASE d < 26 -> 65 + d [] d < 52 -> 71 + d [] d < 62 -> d - 4 [] d = 62 -> 43 [] OTHER -> 47
RECURSIVE B64Of(_)
B64Of(b) ==
  CASE Len(b) = 0 -> << >>
    [] Len(b) = 1 -> << B64Char(b[1] \div 4), B64Char((b[1] % 4) * 16), 61, 61 >>
    [] Len(b) = 2 -> << B64Char(b[1] \div 4), B64Char((b[1] % 4) * 16 + (b[2] \div 16)), B64Char((b[2] % 16) * 4), 61 >>
    [] OTHER -> << B64Char(b[1] \div 4), B64Char((b[1] % 4) * 16 + (b[2] \div 16)), B64Char((b[2] % 16) * 4 + (b[3] \div 64)), B64Char(b[3] % 64) >>
                 \o B64Of(SubSeq(b, 4, Len(b)))
HexU(d) == IF d < 10 THEN 48 + d ELSE 55 + d
Escaped(b) == FlattenSeq([k \in 1..Len(b) |-> << 61, HexU(b[k] \div 16), HexU(b[k] % 16) >>])
QChar(ch) == IF ch = 32 THEN << 95 >> ELSE IF ch \in 33..126 /\ ch \notin {61, 63, 95} THEN << ch >> ELSE Escaped(Utf8(ch))

BytesOf(s) == FlattenSeq([k \in 1..Len(s) |-> Utf8(s[k])])
Open(en) == << 61, 63, 117, 116, 102, 45, 56, 63, en, 63 >>       \* =?utf-8?q?
Close == << 63, 61 >>
\* The characters are spread over words of limited length.
Spread(s, size(_), most) ==
  LET step(acc, ch) == LET n == acc[2] + size(ch) IN
        IF n <= most THEN << [acc[1] EXCEPT ![Len(acc[1])] = Append(@, ch)], n >> ELSE << Append(acc[1], << ch >>), size(ch) >>
  IN FoldLeft(step, << << << >> >>, 0 >>, s)[1]
Wrap(en, contents) == FlattenSeq([k \in 1..Len(contents) |-> (IF k = 1 THEN << >> ELSE << 32 >>) \o Open(en) \o contents[k] \o Close])
QWords(s) == LET ws == Spread(s, LAMBDA ch : Len(QChar(ch)), MaxContent) IN Wrap(113, [k \in 1..Len(ws) |-> FlattenSeq([j \in 1..Len(ws[k]) |-> QChar(ws[k][j])])])
BWords(s) == LET b == BytesOf(s)
                 ws == IF 4 * ((Len(b) + 2) \div 3) <= MaxContent THEN << s >> ELSE Spread(s, LAMBDA ch : Len(Utf8(ch)), MaxB)
             IN Wrap(98, [k \in 1..Len(ws) |-> B64Of(BytesOf(ws[k]))])
NameText(n) ==
  IF \A k \in 1..Len(n) : n[k] \in 33..126 \cup {9, 32} THEN StdQuote(n)
  ELSE IF \E k \in 1..Len(n) : n[k] \in NotInQ THEN BWords(n) ELSE QWords(n)
StdAddr(name, local, domain) ==
  (IF name = << >> THEN << >> ELSE NameText(name) \o << 32 >>)
  \o << 60 >> \o (IF BareLocal(local) THEN local ELSE StdQuote(local)) \o << 64 >> \o domain \o << 62 >>
\* A list of [name, address]: the last '@' divides an address.
LastAt(a) == CHOOSE k \in 1..Len(a) : a[k] = 64 /\ \A j \in (k + 1)..Len(a) : a[j] # 64
StdList(cs) == FlattenSeq([k \in 1..Len(cs) |-> LET a == cs[k][2]  m == LastAt(a) IN
   (IF k = 1 THEN << >> ELSE << 44, 32 >>) \o StdAddr(cs[k][1], SubSeq(a, 1, m - 1), SubSeq(a, m + 1, Len(a)))])

----------------------------------------------------------------------------
\* Times: day, month, year, hour, minute, second, and the offset in minutes.
T2(k) == << 48 + (k \div 10), 48 + (k % 10) >>
T4(k) == T2(k \div 100) \o T2(k % 100)
DowText == << <<77,111,110>>, <<84,117,101>>, <<87,101,100>>, <<84,104,117>>, <<70,114,105>>, <<83,97,116>>, <<83,117,110>> >>
MonText == << <<74,97,110>>, <<70,101,98>>, <<77,97,114>>, <<65,112,114>>, <<77,97,121>>, <<74,117,110>>, <<74,117,108>>, <<65,117,103>>, <<83,101,112>>, <<79,99,116>>, <<78,111,118>>, <<68,101,99>> >>
Abs(k) == IF k < 0 THEN -k ELSE k
OffText(m) == << IF m < 0 THEN 45 ELSE 43 >> \o T2(Abs(m) \div 60) \o T2(Abs(m) % 60)
StdTime(how, d, m) ==
  LET dow  == DowText[((Days(d.year, d.mon, d.day) + 3) % 7) + 1] \o << 44, 32 >>
      date == << 32 >> \o MonText[d.mon] \o << 32 >> \o T4(d.year) \o << 32 >> \o T2(d.hour) \o << 58 >> \o T2(d.min)
      secs == << 58 >> \o T2(d.sec)
  IN CASE how = "RFC1123Z" -> dow \o T2(d.day) \o date \o secs \o << 32 >> \o OffText(m)
       [] how = "RFC1123"  -> dow \o T2(d.day) \o date \o secs \o << 32 >> \o Utc
       [] how = "RFC822Z"  -> T2(d.day) \o date \o << 32 >> \o OffText(m)
       [] how = "nodow"    -> (IF d.day < 10 THEN << 48 + d.day >> ELSE T2(d.day)) \o date \o secs \o << 32 >> \o OffText(m)
=============================================================================
