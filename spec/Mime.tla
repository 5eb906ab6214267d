-------------------------------- MODULE Mime --------------------------------
(***************************************************************************)
(* RFC2047 encoded words: "=?charset?encoding?text?=" to bytes.            *)
(*                                                                         *)
(* DecodeWord(w, reader) is [ok |-> BOOLEAN, bytes |-> ...].  w is the     *)
(* whole word, as the bytes of ASCII characters.  Charsets utf-8,          *)
(* iso-8859-1 and us-ascii are known; any other is handed, in lower case,  *)
(* to the installed charset reader, if there is one.                       *)
(***************************************************************************)
EXTENDS Lexer, SequencesExt

QM == 63     \* '?'
EQ == 61     \* '='

LowerC(c) == IF c \in 65..90 THEN c + 32 ELSE c
Lower(s)  == [k \in 1..Len(s) |-> LowerC(s[k])]

\* Charset names, in lower case.
CsUtf8   == <<117,116,102,45,56>>                        \* utf-8
CsLatin1 == <<105,115,111,45,56,56,53,57,45,49>>         \* iso-8859-1
CsAscii  == <<117,115,45,97,115,99,105,105>>             \* us-ascii

\* Positions of the question marks of an encoded word: 2, a, b, Len-1.
NextQM(w, i) == CHOOSE k \in i..Len(w) : w[k] = QM /\ \A m \in i..(k-1) : w[m] # QM

HexVal(c) == CASE c \in 48..57  -> c - 48
               [] c \in 65..70  -> c - 55
               [] c \in 97..102 -> c - 87
               [] OTHER         -> 16

None == [ok |-> FALSE, bytes |-> << >>]
Some(b) == [ok |-> TRUE, bytes |-> b]

RECURSIVE QFrom(_, _, _)
QFrom(s, i, acc) ==
  IF i > Len(s) THEN Some(acc)
  ELSE IF s[i] = 95 THEN QFrom(s, i + 1, Append(acc, 32))      \* '_' is a space
  ELSE IF s[i] = EQ THEN
    IF i + 2 > Len(s) THEN None
    ELSE IF HexVal(s[i+1]) = 16 \/ HexVal(s[i+2]) = 16 THEN None
    ELSE QFrom(s, i + 3, Append(acc, 16 * HexVal(s[i+1]) + HexVal(s[i+2])))
  ELSE QFrom(s, i + 1, Append(acc, s[i]))
QDecode(s) == QFrom(s, 1, << >>)

B64Val(c) == CASE c \in 65..90  -> c - 65
               [] c \in 97..122 -> c - 71
               [] c \in 48..57  -> c + 4
               [] c = 43        -> 62
               [] c = 47        -> 63
               [] OTHER         -> 64

\* Groups of four characters; only the last group may be padded with one or two '='.
RECURSIVE BFrom(_, _, _)
BFrom(s, i, acc) ==
  IF i > Len(s) THEN Some(acc)
  ELSE IF i + 3 > Len(s) THEN None
  ELSE LET a == B64Val(s[i])  b == B64Val(s[i+1])  c == B64Val(s[i+2])  d == B64Val(s[i+3])
           last == i + 3 = Len(s)
       IN IF a = 64 \/ b = 64 THEN None
          ELSE IF c < 64 /\ d < 64
          THEN BFrom(s, i + 4, acc \o << a * 4 + (b \div 16), (b % 16) * 16 + (c \div 4), (c % 4) * 64 + d >>)
          ELSE IF last /\ c < 64 /\ s[i+3] = EQ
          THEN Some(acc \o << a * 4 + (b \div 16), (b % 16) * 16 + (c \div 4) >>)
          ELSE IF last /\ s[i+2] = EQ /\ s[i+3] = EQ
          THEN Some(acc \o << a * 4 + (b \div 16) >>)
          ELSE None
BDecode(s) == BFrom(s, 1, << >>)

Latin1ToUtf8(b) == FlattenSeq([k \in 1..Len(b) |-> Utf8(b[k])])
AsciiToUtf8(b)  == FlattenSeq([k \in 1..Len(b) |-> IF b[k] < 128 THEN << b[k] >> ELSE << 239, 191, 189 >>])

(***************************************************************************)
(* The charset readers of the harness.  "none": no reader is installed.    *)
(* "any" converts whatever it is asked to, by putting a '!' in front.      *)
(* "base" and "alt" know                                                   *)
(*   x-up     ASCII letters are made upper-case \  "alt" swaps the two, so *)
(*   x-rev    the bytes are reversed            /  that replacing is seen  *)
(*   x-tag    "b:" or "a:" in front of the text                            *)
(*   x-slow, x-gaps, x-eof, x-lazy   the text itself, from a reader that   *)
(*            yields one byte at a time, sometimes none, the last bytes    *)
(*            together with io.EOF, or reads its input only on demand      *)
(*   x-nest   the text itself, by a reader that uses the library           *)
(*   x-void   nothing; x-much: the text forty times                        *)
(* and refuse every other charset with an error: x-both with an error and  *)
(* a reader, x-failread with a reader that fails after some bytes.         *)
(***************************************************************************)
Upper(s) == [k \in 1..Len(s) |-> IF s[k] \in 97..122 THEN s[k] - 32 ELSE s[k]]
XUp  == <<120,45,117,112>>            \* x-up
XRev == <<120,45,114,101,118>>        \* x-rev
XTag == <<120,45,116,97,103>>         \* x-tag
XSlow == <<120,45,115,108,111,119>>   \* x-slow
XGaps == <<120,45,103,97,112,115>>    \* x-gaps
XEof  == <<120,45,101,111,102>>       \* x-eof
XLazy == <<120,45,108,97,122,121>>    \* x-lazy
XNest == <<120,45,110,101,115,116>>   \* x-nest
XVoid == <<120,45,118,111,105,100>>   \* x-void
XMuch == <<120,45,109,117,99,104>>    \* x-much
ReadCharset(reader, cs, b) ==
  CASE reader = "none" -> None
    [] reader = "any"  -> Some(<< 33 >> \o b)
    [] cs = XUp  -> Some(IF reader = "alt" THEN Reverse(b) ELSE Upper(b))
    [] cs = XRev -> Some(IF reader = "alt" THEN Upper(b) ELSE Reverse(b))
    [] cs = XTag -> Some((IF reader = "alt" THEN <<97,58>> ELSE <<98,58>>) \o b)   \* "a:" or "b:"
    [] cs \in {XSlow, XGaps, XEof, XLazy, XNest} -> Some(b)
    [] cs = XVoid -> Some(<< >>)
    [] cs = XMuch -> Some(FlattenSeq([k \in 1..40 |-> b]))
    [] OTHER     -> None

ToUtf8(reader, cs, b) ==
  CASE cs = CsUtf8   -> Some(b)
    [] cs = CsLatin1 -> Some(Latin1ToUtf8(b))
    [] cs = CsAscii  -> Some(AsciiToUtf8(b))
    [] OTHER         -> ReadCharset(reader, cs, b)

DecodeWord(w, reader) ==
  LET a  == NextQM(w, 3)
      b  == NextQM(w, a + 1)
      cs == Lower(SubSeq(w, 3, a - 1))
      en == SubSeq(w, a + 1, b - 1)
      tx == SubSeq(w, b + 1, Len(w) - 2)
      ct == CASE en \in {<<66>>, <<98>>}  -> BDecode(tx)
              [] en \in {<<81>>, <<113>>} -> QDecode(tx)
              [] OTHER -> None
  IN IF ~ct.ok THEN None ELSE ToUtf8(reader, cs, ct.bytes)
=============================================================================
