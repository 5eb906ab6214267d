------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* The lexical level of the parser: one token per Unicode code point.      *)
(*                                                                         *)
(* A character is a code point (a natural number).  Tok(c) is its token,   *)
(* named as in RFC5322Lexer.g4.  Letters are case-insensitive: 'A' and 'a' *)
(* are the same token, and the character itself is kept beside the token   *)
(* wherever the text matters.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences

LetterToks == << "A","B","C","D","E","F","G","H","I","J","K","L","M",
                 "N","O","P","Q","R","S","T","U","V","W","X","Y","Z" >>

\* 32..64, 91..96 and 123..127, in order
Punct32 == << "SP", "Exclamation", "DQuote", "Hash", "Dollar", "Percent", "Ampersand", "SQuote",
              "LParens", "RParens", "Asterisk", "Plus", "Comma", "Minus", "Period", "Slash" >>
Punct58 == << "Colon", "Semicolon", "Less", "Equal", "Greater", "Question", "At" >>
Punct91 == << "LBracket", "Backslash", "RBracket", "Caret", "Underscore", "Backtick" >>
Punct123 == << "LCurly", "Pipe", "RCurly", "Tilde", "Delete" >>

AsciiTokOf(c) ==
  CASE c = 0              -> "U_00"
    [] c \in 1..8         -> "U_01_08"
    [] c = 9              -> "TAB"
    [] c = 10             -> "LF"
    [] c = 11             -> "U_0B"
    [] c = 12             -> "U_0C"
    [] c = 13             -> "CR"
    [] c \in 14..31       -> "U_0E_1F"
    [] c \in 32..47       -> Punct32[c - 31]
    [] c \in 48..57       -> "Digit"
    [] c \in 58..64       -> Punct58[c - 57]
    [] c \in 65..90       -> LetterToks[c - 64]
    [] c \in 91..96       -> Punct91[c - 90]
    [] c \in 97..122      -> LetterToks[c - 96]
    [] c \in 123..127     -> Punct123[c - 122]

\* All tokens, and their numbers (the machine works on numbers).
TokNames == << "EOF", "U_00", "U_01_08", "TAB", "LF", "U_0B", "U_0C", "CR", "U_0E_1F" >>
            \o Punct32 \o << "Digit" >> \o Punct58 \o Punct91 \o Punct123
            \o << "UTF8NonAscii" >> \o LetterToks

TokNo(name) == CHOOSE k \in 1..Len(TokNames) : TokNames[k] = name

AsciiTokNo == [c \in 0..127 |-> TokNo(AsciiTokOf(c))]
NonAsciiNo == TokNo("UTF8NonAscii")
EOF        == TokNo("EOF")

\* The token number of a code point.
Tok(c) == IF c < 128 THEN AsciiTokNo[c] ELSE NonAsciiNo

AllToks == 1..Len(TokNames)

----------------------------------------------------------------------------
\* UTF-8: the bytes of a code point.
Utf8(c) ==
  CASE c < 128    -> << c >>
    [] c < 2048   -> << 192 + (c \div 64), 128 + (c % 64) >>
    [] c < 65536  -> << 224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
    [] OTHER      -> << 240 + (c \div 262144), 128 + ((c \div 4096) % 64),
                        128 + ((c \div 64) % 64), 128 + (c % 64) >>
=============================================================================
