------------------------------- MODULE Writer -------------------------------
(***************************************************************************)
(* Pieces of text with the meaning their writer intends.                   *)
(*                                                                         *)
(* A piece is [t |-> code points, v |-> intended bytes].  The writers are  *)
(* written from RFC 5322 and RFC 2047, not from the parser: they state     *)
(* what a text is supposed to mean, and the machine and the real parser    *)
(* have to agree with them.                                                *)
(*                                                                         *)
(* Pieces are chosen with RandomElement (seeded by TLC's -seed).  Every    *)
(* operator that chooses takes a parameter, so that TLC does not take it   *)
(* for a constant.  A choice that is used twice is bound by a set          *)
(* comprehension (The({ f(x) : x \in {choice} })), which makes it once.    *)
(***************************************************************************)
EXTENDS Machine, TLC, Json

The(S) == CHOOSE x \in S : TRUE
Chance(n, d) == RandomElement(1..d) <= n
Bytes(cs) == FlattenSeq([k \in 1..Len(cs) |-> Utf8(cs[k])])
Same(cs) == The({ [t |-> x, v |-> Bytes(x)] : x \in {cs} })
Empty == [t |-> << >>, v |-> << >>]
Cat(a, b) == The({ [t |-> x.t \o y.t, v |-> x.v \o y.v] : x \in {a}, y \in {b} })

AsciiOf(toks) == { ch \in 0..127 : AsciiTokOf(ch) \in toks }
AtextSet == AsciiOf(Atext)
AlnumSet == (48..57) \cup (65..90) \cup (97..122)
QtextSet == AsciiOf(Qtext)
VcharSet == AsciiOf(Vchar)
QuotedSet == AsciiOf(QuotedChar)
CtextSet == AsciiOf(Ctext)
DtextSet == AsciiOf(Dtext)
CtlSet   == AsciiOf(NoWsCtl)
QpSet    == VcharSet \cup {9, 32}
ObsQpSet == CtlSet \cup {0, 10, 13}

\* Characters beyond ASCII: any Unicode scalar value.
UniEdge == {128, 133, 159, 160, 173, 223, 255, 256, 304, 305, 383, 769, 1632, 2047, 2048, 8203, 8232, 8233, 8490,
            12288, 55295, 57344, 64257, 65279, 65281, 65533, 65534, 65535, 65536, 66560, 119808, 127397,
            128512, 131071, 131072, 917505, 1048576, 1114109, 1114111}
Uni(q) ==
  CASE Chance(1, 3) -> RandomElement(UniEdge)
    [] Chance(1, 3) -> RandomElement(128..2047)
    [] Chance(1, 2) -> RandomElement(2048..55295)
    [] Chance(1, 3) -> RandomElement(57344..65535)
    [] OTHER        -> RandomElement(65536..1114111)

\* n characters, each chosen by Ch(_).
Chars(n, Ch(_)) == TLCEval([k \in 1..n |-> Ch(k)])
\* Add(_, k) for k = 1..n, from base
Times(n, base, Add(_, _)) == FoldLeft(Add, base, Chars(n, LAMBDA k : k))

----------------------------------------------------------------------------
\* White space and comments: no meaning.
Wsps(q) == Chars(IF Chance(3, 4) THEN 1 ELSE RandomElement(1..4), LAMBDA k : IF Chance(3, 4) THEN 32 ELSE 9)
Folded(q) == (IF Chance(1, 2) THEN << >> ELSE Wsps(q)) \o << 13, 10 >> \o Wsps(q)
Fws(q) == IF Chance(2, 3) THEN Wsps(q) ELSE Folded(q)
OptFws(q) == IF Chance(3, 4) THEN << >> ELSE Fws(q)

RECURSIVE Comment(_)
CommentItem(d) ==
  CASE Chance(1, 2) -> Chars(RandomElement(1..4), LAMBDA k : RandomElement(CtextSet))
    [] Chance(1, 3) -> << 92, RandomElement(QpSet) >>
    [] Chance(1, 6) -> << 92, RandomElement(ObsQpSet) >>
    [] Chance(1, 3) -> << Uni(d) >>
    [] OTHER -> IF d < 4 THEN Comment(d + 1) ELSE << 42 >>
Comment(d) ==
  << 40 >> \o OptFws(d)
    \o Times(RandomElement(0..3), << >>, LAMBDA acc, k : acc \o CommentItem(d) \o OptFws(d))
    \o << 41 >>
Cfws(q) ==
  IF Chance(1, 2) THEN Fws(q)
  ELSE OptFws(q) \o Times(RandomElement(1..2), << >>, LAMBDA acc, k : acc \o Comment(1) \o OptFws(q))
Gap(q) == TLCEval(Cfws(q))                                              \* never empty
Gap0(n, d) == IF Chance(n, d) THEN Gap(n) ELSE << >>                    \* not empty in n of d cases

----------------------------------------------------------------------------
(* Words.  u of 10 characters are not ASCII.  Atoms do not contain '?', so  *)
(* that none looks like an encoded word.                                    *)
AtomSet == AtextSet \ {QM}
AtomChar(u) == CASE u > 0 /\ Chance(u, 10) -> Uni(u)
                 [] Chance(3, 4) -> RandomElement(AlnumSet)
                 [] OTHER -> RandomElement(AtomSet)
Atom(n, u) == Same(Chars(n, LAMBDA k : AtomChar(u)))
DotAtom(n, u) ==
  Times(n, Empty, LAMBDA acc, k : Cat(acc, Cat(IF k = 1 THEN Empty ELSE Same(<< 46 >>), Atom(RandomElement(1..5), u))))

\* A run of white space inside a value: the line break of a fold is not part of the value.
ValueFws(q) == The({ [t |-> w, v |-> SelectSeq(w, LAMBDA ch : ch \in {9, 32})] : w \in {Fws(q)} })
OptValueFws(q) == IF Chance(3, 4) THEN Empty ELSE ValueFws(q)

\* A character that has to be quoted is written as a quoted pair; others may be.
QuotedItem(u) ==
  CASE Chance(1, 3) -> The({ [t |-> << 92, ch >>, v |-> << ch >>] : ch \in {RandomElement(QuotedSet)} })
    [] u > 0 /\ Chance(u, 12) -> The({ [t |-> << 92, ch >>, v |-> Utf8(ch)] : ch \in {Uni(u)} })
    [] u > 0 /\ Chance(u, 10) -> Same(<< Uni(u) >>)
    [] Chance(1, 8) -> Same(<< RandomElement(CtlSet) >>)
    [] OTHER -> Same(<< RandomElement(QtextSet) >>)
Quoted(n, u) ==
  The({ [t |-> << 34 >> \o x.t \o << 34 >>, v |-> x.v] :
        x \in { Cat(Times(n, Empty, LAMBDA acc, k : Cat(acc, Cat(OptValueFws(u), QuotedItem(u)))), OptValueFws(u)) } })

Literal(n) ==
  The({ [t |-> << 91 >> \o x.t \o << 93 >>, v |-> << 91 >> \o x.v \o << 93 >>] :
        x \in { Cat(Times(n, Empty, LAMBDA acc, k : Cat(acc, Cat(OptValueFws(k), Same(<< RandomElement(DtextSet) >>)))),
                    OptValueFws(n)) } })

----------------------------------------------------------------------------
(* Encoded words: bytes in a charset, written in Q or B encoding.           *)
Hex(d, up) == IF d < 10 THEN 48 + d ELSE IF up THEN 55 + d ELSE 87 + d
QByte(b) ==
  CASE b = 32 /\ Chance(2, 3) -> << 95 >>
    [] b \in AlnumSet /\ Chance(9, 10) -> << b >>
    [] b \in {33, 42, 43, 45, 47} /\ Chance(1, 2) -> << b >>        \* RFC 2047, 5(3)
    [] OTHER -> The({ << EQ, Hex(b \div 16, up), Hex(b % 16, up) >> : up \in {Chance(3, 4)} })
QText(bs) == Times(Len(bs), << >>, LAMBDA acc, k : acc \o QByte(bs[k]))
B64Digit(d) == CASE d < 26 -> 65 + d [] d < 52 -> 71 + d [] d < 62 -> d - 4 [] d = 62 -> 43 [] OTHER -> 47
BGroup(bs, k) ==
  LET n == Len(bs) - k + 1
      x == bs[k]  y == IF n > 1 THEN bs[k + 1] ELSE 0  z == IF n > 2 THEN bs[k + 2] ELSE 0
  IN << B64Digit(x \div 4), B64Digit((x % 4) * 16 + y \div 16) >>
     \o << IF n > 1 THEN B64Digit((y % 16) * 4 + z \div 64) ELSE EQ, IF n > 2 THEN B64Digit(z % 64) ELSE EQ >>
BText(bs) == FoldLeft(LAMBDA acc, k : IF k % 3 = 1 THEN acc \o BGroup(bs, k) ELSE acc, << >>, [k \in 1..Len(bs) |-> k])

AnyCase(name) == Chars(Len(name), LAMBDA k : IF name[k] \in 97..122 /\ Chance(1, 4) THEN name[k] - 32 ELSE name[k])
EncodedText(cs, bs) ==
  LET b == Chance(1, 2)
      enc(isB) == << EQ, QM >> \o AnyCase(cs) \o << QM, (IF isB THEN 66 ELSE 81) + (IF Chance(1, 4) THEN 32 ELSE 0), QM >>
                  \o (IF isB THEN BText(bs) ELSE QText(bs)) \o << QM, EQ >>
  IN The({ enc(isB) : isB \in {b} })

\* What charset cs makes of the bytes bs under reader rd; intended independently of Mime's ToUtf8.
Meaning(cs, bs, rd) ==
  CASE cs = CsUtf8   -> bs
    [] cs = CsLatin1 -> FlattenSeq([k \in 1..Len(bs) |-> IF bs[k] < 128 THEN << bs[k] >>
                                     ELSE << IF bs[k] < 192 THEN 194 ELSE 195, 128 + (bs[k] % 64) >>])
    [] cs = CsAscii  -> bs
    [] rd = "any"    -> << 33 >> \o bs
    [] cs = XUp      -> IF rd = "base" THEN Upper(bs) ELSE Reverse(bs)
    [] cs = XRev     -> IF rd = "base" THEN Reverse(bs) ELSE Upper(bs)
    [] cs = XTag     -> << IF rd = "base" THEN 98 ELSE 97, 58 >> \o bs
    [] cs = XVoid    -> << >>
    [] cs = XMuch    -> FoldLeft(LAMBDA acc, k : acc \o bs, << >>, [k \in 1..40 |-> k])
    [] OTHER         -> bs
KnownCharsets == {CsUtf8, CsLatin1, CsAscii}
ReaderCharsets == {XUp, XRev, XTag, XSlow, XGaps, XEof, XLazy, XNest, XMuch}
Utf8Bytes(n) == Bytes(Chars(n, LAMBDA k : IF Chance(1, 2) THEN RandomElement(32..126) ELSE Uni(k)))
Encoded(rd) ==
  The({ [t |-> EncodedText(cs, bs), v |-> Meaning(cs, bs, rd)] :
        <<cs, bs>> \in { The({ << cs, CASE cs = CsUtf8 -> Utf8Bytes(RandomElement(1..6))
                                        [] cs = CsAscii -> Chars(RandomElement(1..12), LAMBDA k : RandomElement(0..127))
                                        [] OTHER -> Chars(RandomElement(1..12), LAMBDA k : RandomElement(0..255)) >> :
                             cs \in { RandomElement(IF rd = "none" \/ Chance(1, 2) THEN KnownCharsets ELSE ReaderCharsets) } }) } })
=============================================================================
