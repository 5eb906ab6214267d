------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* The published grammar (RFC5322Parser.g4) as data.                       *)
(*                                                                         *)
(* A production is <<name, alternatives>>.  The ORDER of the alternatives  *)
(* matters: an input with several derivations is given the derivation that *)
(* takes the earliest possible alternative at each choice, where a choice  *)
(* counts as possible only if the whole input can still be derived.        *)
(* X? , X* and X+ are productions too, and prefer to take an X.            *)
(*                                                                         *)
(* Symbols are strings:                                                    *)
(*   - a terminal stands for one character with a token of its class;      *)
(*     terminals whose name ends in "!" append their character to the      *)
(*     value of the node being read, the others read it and forget it;     *)
(*   - "<node" and ">node" are read where the parse tree walker enters and *)
(*     leaves a node that has a meaning (module Walker);                   *)
(*   - every other symbol is the name of a production.                     *)
(***************************************************************************)
EXTENDS Lexer

Alpha == { LetterToks[k] : k \in 1..26 }
VcharPunct == {"Exclamation","DQuote","Hash","Dollar","Percent","Ampersand","SQuote","LParens",
               "RParens","Asterisk","Plus","Comma","Minus","Period","Slash","Colon","Semicolon",
               "Less","Equal","Greater","Question","At","LBracket","Backslash","RBracket","Caret",
               "Underscore","Backtick","LCurly","Pipe","RCurly","Tilde"}
VcharAscii == Alpha \cup {"Digit"} \cup VcharPunct
Vchar      == VcharAscii \cup {"UTF8NonAscii"}
Wsp        == {"SP", "TAB"}
NoWsCtl    == {"U_01_08", "U_0B", "U_0C", "U_0E_1F", "Delete"}
Specials   == {"LParens","RParens","Less","Greater","LBracket","RBracket","Colon","Semicolon","At",
               "Backslash","Comma","Period","DQuote"}
Atext      == Vchar \ Specials
Ctext      == (Vchar \ {"LParens","RParens","Backslash"}) \cup NoWsCtl
Qtext      == (Vchar \ {"DQuote","Backslash"}) \cup NoWsCtl
Dtext      == Vchar \ {"LBracket","RBracket","Backslash"}
QuotedChar == Vchar \cup Wsp
ObsQP      == {"U_00", "LF", "CR"} \cup NoWsCtl
TokenChar  == Alpha \cup {"Exclamation","Hash","Dollar","Percent","Ampersand","SQuote","Asterisk",
               "Plus","Minus","Digit","Backslash","Caret","Underscore","Backtick","LCurly","Pipe",
               "RCurly","Tilde"}
EncodedChar == VcharAscii \ {"Question"}

\* Classes of characters used as terminals (beside the single tokens).
Classes == <<
  <<"wsp", Wsp>>, <<"ctext", Ctext>>, <<"quotedChar", QuotedChar>>, <<"obsQPChar", ObsQP>>,
  <<"comSem", {"Comma", "Semicolon"}>>,
  <<"wsp!", Wsp>>, <<"atext!", Atext>>, <<"qtext!", Qtext>>, <<"dtext!", Dtext>>,
  <<"quotedChar!", QuotedChar>>, <<"tokenChar!", TokenChar>>, <<"encodedChar!", EncodedChar>>,
  <<"digit!", {"Digit"}>>, <<"sign!", {"Plus", "Minus"}>>, <<"unspaced!", {"Period", "At"}>>,
  <<"Period!", {"Period"}>>, <<"Equal!", {"Equal"}>>, <<"Question!", {"Question"}>>,
  <<"LBracket!", {"LBracket"}>>, <<"RBracket!", {"RBracket"}>> >>
  \o [k \in 1..26 |-> << LetterToks[k] \o "!", {LetterToks[k]} >>]
  \o [k \in 1..Len(TokNames) |-> << TokNames[k], {TokNames[k]} >>]

\* A production whose node the walker enters and leaves.
Node(name, alts) ==
  << name, [k \in 1..Len(alts) |-> << "<" \o name >> \o alts[k] \o << ">" \o name >>] >>
Plain(name, alts) == << name, alts >>
(* White space is written in a form that has one derivation: RFC 5322's      *)
(* fws = ([wsp*] CRLF) wsp+ / wsp+ (CRLF wsp+)  and  cfws = (fws? comment)+    *)
(* fws? / fws  as  fws = wsp+ fold? / fold  and  cfws = fws (comment fws?)* /   *)
(* (comment fws?)+ .  The texts are the same, and no node is inside of them.   *)
Opt(x)  == << x \o "?", << << x >>, << >> >> >>
Star(x) == << x \o "*", << << x, x \o "*" >>, << >> >> >>
Many(x) == << x \o "+", << << x, x \o "*" >> >> >>

Tokens ==
  << \* white space and comments
     Star("wsp"), Many("wsp"),
     Plain("fold", << <<"CR", "LF", "wsp+">> >>), Opt("fold"),
     Plain("fws", << <<"wsp+", "fold?">>, <<"fold">> >>), Opt("fws"),
     Plain("quotedPair", << <<"Backslash", "quotedChar">>, <<"Backslash", "obsQPChar">> >>),
     Plain("ccontent", << <<"ctext">>, <<"quotedPair">>, <<"comment">> >>),
     Plain("ccBody", << <<"ccontent", "fws?">> >>), Star("ccBody"),
     Plain("comment", << <<"LParens", "fws?", "ccBody*", "RParens">> >>),
     Plain("commentFws", << <<"comment", "fws?">> >>), Star("commentFws"), Many("commentFws"),
     Plain("cfws", << <<"fws", "commentFws*">>, <<"commentFws+">> >>), Opt("cfws"),
     \* white space that is part of a value: everything but the line break of a fold
     Star("wsp!"), Many("wsp!"),
     Plain("fold!", << <<"CR", "LF", "wsp!+">> >>), Opt("fold!"),
     Plain("fws!", << <<"wsp!+", "fold!?">>, <<"fold!">> >>), Opt("fws!"),
     \* atoms, quoted strings, encoded words
     Star("atext!"), Many("atext!"),
     Node("atom", << <<"atext!+">> >>),
     Plain("dotAtomRest", << <<"Period!", "atext!+">> >>), Star("dotAtomRest"), Opt("Period!"),
     Node("dotAtom", << <<"atext!+", "dotAtomRest*", "Period!?">> >>),
     Plain("quotedContent", << <<"qtext!">>, <<"Backslash", "quotedChar!">>, <<"Backslash", "obsQPChar">> >>),
     Plain("quotedBody", << <<"quotedContent", "fws!?">> >>), Star("quotedBody"),
     Node("quotedString", << <<"DQuote", "fws!?", "quotedBody*", "DQuote">> >>),
     Star("tokenChar!"), Many("tokenChar!"), Star("encodedChar!"), Many("encodedChar!"),
     Node("encodedWord", << <<"Equal!", "Question!", "tokenChar!+", "Question!", "tokenChar!+",
                              "Question!", "encodedChar!+", "Question!", "Equal!">> >>),
     Plain("spacedEncodedWord", << <<"cfws?", "encodedWord", "cfws?">> >>),
     Star("spacedEncodedWord"), Many("spacedEncodedWord"),
     Node("word", << <<"spacedEncodedWord+">>, <<"cfws?", "atom", "cfws?">>,
                     <<"cfws?", "quotedString", "cfws?">> >>), Star("word"), Many("word"),
     Star("digit!"), Many("digit!"), Opt("digit!") >>

Addresses ==
  << Node("unspaced", << <<"unspaced!">> >>),
     Plain("nameItem", << <<"word">>, <<"unspaced">>, <<"cfws">> >>), Star("nameItem"),
     Node("displayName", << <<"word+">>, <<"word", "nameItem*">> >>), Opt("displayName"),
     \* addr-spec
     Plain("dotWord", << <<"Period", "word">> >>), Star("dotWord"),
     Node("obsLocalPart", << <<"word", "dotWord*">> >>),
     Node("localPart", << <<"cfws?", "dotAtom", "cfws?">>, <<"cfws?", "quotedString", "cfws?">>,
                          <<"obsLocalPart">> >>),
     Plain("literalBody", << <<"dtext!", "fws!?">> >>), Star("literalBody"),
     Node("domainLiteral", << <<"LBracket!", "fws!?", "literalBody*", "RBracket!">> >>),
     Plain("dotAtomic", << <<"Period", "atom">> >>), Star("dotAtomic"),
     Node("obsDomain", << <<"atom", "dotAtomic*">> >>),
     Node("domain", << <<"cfws?", "dotAtom", "cfws?">>, <<"cfws?", "domainLiteral", "cfws?">>,
                       <<"cfws?", "obsDomain", "cfws?">> >>),
     Node("port", << <<"digit!+">> >>),
     Plain("colonPort", << <<"Colon", "port">> >>), Opt("colonPort"),
     Node("addrSpec", << <<"localPart", "At", "domain", "colonPort?">> >>), Opt("addrSpec"),
     \* mailboxes
     Plain("cfwsOrComma", << <<"cfws">>, <<"Comma">> >>), Star("cfwsOrComma"),
     Plain("atDomain", << <<"At", "domain">> >>), Opt("atDomain"),
     Plain("moreRoute", << <<"Comma", "cfws?", "atDomain?">> >>), Star("moreRoute"),
     Plain("obsDomainList", << <<"cfwsOrComma*", "At", "domain", "moreRoute*">> >>),
     Plain("obsRoute", << <<"obsDomainList", "Colon">> >>),
     Node("obsAngleAddr", << <<"cfws?", "Less", "obsRoute", "addrSpec", "Greater", "cfws?">> >>),
     Node("angleAddr", << <<"cfws?", "Less", "addrSpec?", "Greater", "cfws?">>, <<"obsAngleAddr">> >>),
     Node("nameAddr", << <<"displayName?", "angleAddr">> >>),
     Node("mailbox", << <<"nameAddr">>, <<"addrSpec">> >>),
     \* lists and groups
     Plain("commaMailbox", << <<"Comma", "mailbox">> >>), Star("commaMailbox"),
     Plain("cfwsComma", << <<"cfws?", "Comma">> >>), Star("cfwsComma"), Many("cfwsComma"),
     Plain("mailboxOrCfws", << <<"mailbox">>, <<"cfws">> >>), Opt("mailboxOrCfws"),
     Plain("obsCommaMailbox", << <<"Comma", "mailboxOrCfws?">> >>), Star("obsCommaMailbox"),
     Node("obsMboxList", << <<"cfwsComma*", "mailbox", "obsCommaMailbox*">> >>),
     Node("mailboxList", << <<"mailbox", "commaMailbox*">>, <<"obsMboxList">> >>),
     Plain("obsGroupList", << <<"cfwsComma+", "cfws?">> >>),
     Node("groupList", << <<"mailboxList">>, <<"cfws">>, <<"obsGroupList">> >>), Opt("groupList"),
     Opt("DQuote"), Opt("Semicolon"),
     Node("group", << <<"DQuote?", "displayName", "Colon", "groupList?", "DQuote?", "Semicolon?",
                        "cfws?">> >>),
     Node("address", << <<"mailbox">>, <<"group">> >>),
     Plain("moreAddress", << <<"comSem", "address">> >>), Star("moreAddress"),
     Plain("addressOrCfws", << <<"address">>, <<"cfws">> >>), Opt("addressOrCfws"),
     Plain("obsCommaAddress", << <<"Comma", "addressOrCfws?">> >>), Star("obsCommaAddress"),
     Plain("obsAddrList", << <<"cfwsComma*", "address", "obsCommaAddress*">> >>),
     Node("addressList", << <<"address", "moreAddress*", "EOF">>, <<"obsAddrList", "EOF">> >>) >>

DateTimes ==
  << Plain("dayName", << <<"M","O","N">>, <<"T","U","E">>, <<"W","E","D">>, <<"T","H","U">>,
                         <<"F","R","I">>, <<"S","A","T">>, <<"S","U","N">> >>),
     Plain("dayOfWeek", << <<"fws?", "dayName">>, <<"cfws?", "dayName", "cfws?">> >>),
     Plain("dayOfWeekComma", << <<"dayOfWeek", "Comma">> >>), Opt("dayOfWeekComma"),
     Node("day", << <<"fws?", "digit!", "digit!?", "fws">>, <<"cfws?", "digit!", "digit!?", "cfws?">> >>),
     Node("month", << <<"J!","A!","N!">>, <<"F!","E!","B!">>, <<"M!","A!","R!">>, <<"A!","P!","R!">>,
                      <<"M!","A!","Y!">>, <<"J!","U!","N!">>, <<"J!","U!","L!">>, <<"A!","U!","G!">>,
                      <<"S!","E!","P!">>, <<"O!","C!","T!">>, <<"N!","O!","V!">>, <<"D!","E!","C!">> >>),
     Node("year", << <<"fws", "digit!", "digit!", "digit!", "digit!", "fws">>,
                     <<"cfws?", "digit!", "digit!", "cfws?">> >>),
     Node("hour", << <<"digit!?", "digit!">>, <<"cfws?", "digit!?", "digit!", "cfws?">> >>),
     Node("minute", << <<"digit!", "digit!">>, <<"cfws?", "digit!", "digit!", "cfws?">> >>),
     Node("second", << <<"digit!", "digit!">>, <<"cfws?", "digit!", "digit!", "cfws?">> >>),
     Plain("colonSecond", << <<"Colon", "second">> >>), Opt("colonSecond"),
     Opt("sign!"),
     Node("offset", << <<"sign!?", "digit!", "digit!", "digit!", "digit!">> >>),
     Node("obsZone", << <<"U!","T!">>, <<"U!","T!","C!">>, <<"G!","M!","T!">>, <<"E!","S!","T!">>,
                        <<"E!","D!","T!">>, <<"C!","S!","T!">>, <<"C!","D!","T!">>, <<"M!","S!","T!">>,
                        <<"M!","D!","T!">>, <<"P!","S!","T!">>, <<"P!","D!","T!">> >>),
     Node("zone", << <<"fws", "offset">>, <<"obsZone">> >>), Opt("zone"),
     Node("dateTime", << <<"dayOfWeekComma?", "day", "month", "year", "hour", "Colon", "minute",
                           "colonSecond?", "zone?", "cfws?", "EOF">> >>) >>

Productions == Tokens \o Addresses \o DateTimes

\* The nodes the walker knows.
Nodes == << "atom", "dotAtom", "quotedString", "encodedWord", "word", "unspaced", "displayName",
            "obsLocalPart", "localPart", "domainLiteral", "obsDomain", "domain", "port", "addrSpec",
            "obsAngleAddr", "angleAddr", "nameAddr", "mailbox", "obsMboxList", "mailboxList",
            "groupList", "group", "address", "addressList",
            "day", "month", "year", "hour", "minute", "second", "offset", "obsZone", "zone", "dateTime" >>

----------------------------------------------------------------------------
(* The same grammar, numbered.  Symbols are 1..N: productions first, then   *)
(* terminals, then the enter marks and the exit marks.                      *)
NP == Len(Productions)
NT == Len(Classes)
NN == Len(Nodes)
SymNames == [k \in 1..NP |-> Productions[k][1]] \o [k \in 1..NT |-> Classes[k][1]]
            \o [k \in 1..NN |-> "<" \o Nodes[k]] \o [k \in 1..NN |-> ">" \o Nodes[k]]
NSym == Len(SymNames)
SymNo(name) == CHOOSE k \in 1..NSym : SymNames[k] = name

IsProd(s)  == s <= NP
IsTerm(s)  == s > NP /\ s <= NP + NT
IsEnter(s) == s > NP + NT /\ s <= NP + NT + NN
EnterNode(s) == s - NP - NT
ExitNode(s)  == s - NP - NT - NN

\* Alternatives of production s, as sequences of numbers.
Alts == [p \in 1..NP |-> [k \in 1..Len(Productions[p][2]) |->
           [m \in 1..Len(Productions[p][2][k]) |-> SymNo(Productions[p][2][k][m])]]]

TermToks == [t \in 1..NT |-> { TokNo(x) : x \in Classes[t][2] }]
TokSet(s) == TermToks[s - NP]
Captures == { NP + t : t \in { t \in 1..NT :
                 LET nm == Classes[t][1] IN SubSeq(nm, Len(nm), Len(nm)) = "!" } }

\* Every symbol used is defined exactly once.
GrammarOK ==
  /\ \A a, b \in 1..NSym : SymNames[a] = SymNames[b] => a = b
  /\ \A p \in 1..NP : \A k \in 1..Len(Productions[p][2]) : \A m \in 1..Len(Productions[p][2][k]) :
        \E s \in 1..NSym : SymNames[s] = Productions[p][2][k][m]

\* What a symbol can begin with; 0 stands for "can be empty".
RECURSIVE FirstOfSeq(_, _)
FirstOfSeq(F, w) ==
  IF w = << >> THEN {0}
  ELSE LET h == F[Head(w)] IN IF 0 \in h THEN (h \ {0}) \cup FirstOfSeq(F, Tail(w)) ELSE h
FirstInit == [s \in 1..NSym |-> IF IsProd(s) THEN {} ELSE IF IsTerm(s) THEN TokSet(s) ELSE {0}]
FirstStep(F) == [s \in 1..NSym |->
  IF IsProd(s) THEN UNION { FirstOfSeq(F, Alts[s][k]) : k \in 1..Len(Alts[s]) } ELSE F[s]]
RECURSIVE FirstFix(_)
FirstFix(F) == LET G == FirstStep(F) IN IF G = F THEN F ELSE FirstFix(G)
First == FirstFix(FirstInit)
\* AltFirst[p][k]: what alternative k of production p can begin with.
AltFirst == [p \in 1..NP |-> [k \in 1..Len(Alts[p]) |-> FirstOfSeq(First, Alts[p][k])]]
=============================================================================
