------------------------------- MODULE Walker -------------------------------
(***************************************************************************)
(* The walk over the syntax tree: a stack of frames, one per node that has *)
(* been entered and not left.  Leaving a node hands its value to its       *)
(* parent, if the parent wants a value of that kind.                       *)
(*                                                                         *)
(* A frame is [n |-> node, v |-> value so far].  Texts are byte sequences. *)
(* env is what the outcome depends on beside the input: the installed      *)
(* charset reader and the current year.                                    *)
(***************************************************************************)
EXTENDS Mime, Grammar, Calendar

SP  == 32
Utc == << 85, 84, 67 >>
DOT == 46
ATC == 64
COL == 58

ListNodes == {"obsMboxList", "mailboxList", "groupList", "group", "address", "addressList"}
PairNodes == {"word", "nameAddr", "mailbox", "addrSpec"}

Blank(n) ==
  CASE n \in PairNodes      -> << << >>, << >> >>
    [] n = "displayName"    -> << << >>, FALSE >>
    [] n = "dateTime"       -> [day |-> 0, mon |-> 0, year |-> 0, hour |-> 0, min |-> 0, sec |-> 0,
                                off |-> 0, zone |-> Utc]
    [] n = "zone"           -> [off |-> 0, zone |-> Utc]
    [] OTHER                -> << >>       \* texts and lists

Frame(n) == [n |-> n, v |-> Blank(n)]
BlankOf == [k \in 1..NN |-> Frame(Nodes[k])]

RECURSIVE Join(_)
Join(ws) == CASE Len(ws) = 0 -> << >>
              [] Len(ws) = 1 -> ws[1]
              [] OTHER       -> ws[1] \o << DOT >> \o Join(Tail(ws))

AddrText(a) == a[1] \o << ATC >> \o a[2]

\* A word after the first is separated by one space, unless an unspaced character precedes it.
AddWord(d, w) ==
  IF d[2] THEN << d[1] \o w, FALSE >>
  ELSE IF Len(d[1]) > 0 THEN << d[1] \o << SP >> \o w, FALSE >>
  ELSE << w, FALSE >>

DecodedWord(w, env) == LET d == DecodeWord(w, env.reader) IN IF d.ok THEN d.bytes ELSE w

\* The value that a node with the collected value v has when it is left.
Leave(n, v, env) ==
  CASE n = "encodedWord" -> << DecodedWord(v, env), v >>
    [] n \in {"day", "hour", "minute", "second"} -> Num(v)
    [] n = "year"    -> YearOf(v, env.year)
    [] n = "month"   -> MonthOf(Lower(v))
    [] n = "offset"  -> [off |-> OffsetOf(v), zone |-> OffsetName(v)]
    [] n = "obsZone" -> [off |-> ZoneOffset(Lower(v)), zone |-> v]
    [] OTHER -> v

\* What frame p becomes when its child node c, of value v, is left.
Give(c, v, p) ==
  LET set(x) == [p EXCEPT !.v = x]
      q == p.n
  IN CASE c = "atom" ->
            CASE q = "word"      -> set(<< v, v >>)
              [] q = "obsDomain" -> set(Append(p.v, v))
              [] OTHER           -> p
       [] c = "quotedString" ->
            CASE q = "word"      -> set(<< v, v >>)
              [] q = "localPart" -> set(v)
              [] OTHER           -> p
       [] c = "encodedWord" -> IF q = "word" THEN set(<< p.v[1] \o v[1], p.v[2] \o v[2] >>) ELSE p
       [] c = "word" ->
            CASE q = "displayName"  -> set(AddWord(p.v, v[1]))
              [] q = "obsLocalPart" -> set(Append(p.v, v[2]))
              [] OTHER              -> p
       [] c = "unspaced"      -> IF q = "displayName" THEN set(<< p.v[1] \o v, TRUE >>) ELSE p
       [] c = "displayName"   -> IF q = "nameAddr" THEN set(<< v[1], p.v[2] >>) ELSE p
       [] c = "dotAtom"       -> IF q \in {"localPart", "domain"} THEN set(v) ELSE p
       [] c = "obsLocalPart"  -> IF q = "localPart" THEN set(Join(v)) ELSE p
       [] c = "domainLiteral" -> IF q = "domain" THEN set(v) ELSE p
       [] c = "obsDomain"     -> IF q = "domain" THEN set(Join(v)) ELSE p
       [] c = "localPart"     -> IF q = "addrSpec" THEN set(<< v, p.v[2] >>) ELSE p
       [] c = "domain"        -> IF q = "addrSpec" THEN set(<< p.v[1], v >>) ELSE p
       [] c = "port"          -> IF q = "addrSpec" THEN set(<< p.v[1], p.v[2] \o << COL >> \o v >>) ELSE p
       [] c = "addrSpec" ->
            CASE q \in {"angleAddr", "obsAngleAddr"} -> set(AddrText(v))
              [] q = "mailbox" -> set(<< p.v[1], AddrText(v) >>)
              [] OTHER -> p
       [] c = "obsAngleAddr"  -> IF q = "angleAddr" THEN set(v) ELSE p
       [] c = "angleAddr"     -> IF q = "nameAddr" THEN set(<< p.v[1], v >>) ELSE p
       [] c = "nameAddr"      -> IF q = "mailbox" THEN set(v) ELSE p
       [] c = "mailbox"       -> IF q \in {"address", "mailboxList", "obsMboxList"} THEN set(Append(p.v, v)) ELSE p
       [] c = "obsMboxList"   -> IF q = "mailboxList" THEN set(p.v \o v) ELSE p
       [] c = "mailboxList"   -> IF q = "groupList" THEN set(p.v \o v) ELSE p
       [] c = "groupList"     -> IF q = "group" THEN set(p.v \o v) ELSE p
       [] c = "group"         -> IF q = "address" THEN set(p.v \o v) ELSE p
       [] c = "address"       -> IF q = "addressList" THEN set(p.v \o v) ELSE p
       [] c = "day"    -> [p EXCEPT !.v.day = v]
       [] c = "month"  -> [p EXCEPT !.v.mon = v]
       [] c = "year"   -> [p EXCEPT !.v.year = v]
       [] c = "hour"   -> [p EXCEPT !.v.hour = v]
       [] c = "minute" -> [p EXCEPT !.v.min = v]
       [] c = "second" -> [p EXCEPT !.v.sec = v]
       [] c \in {"offset", "obsZone"} -> set(v)
       [] c = "zone"   -> [p EXCEPT !.v.off = v.off, !.v.zone = v.zone]
       [] OTHER -> p

----------------------------------------------------------------------------
\* The steps of the walk, on a stack (the top frame is the last).
Enter(k, stack) == Append(stack, BlankOf[k])
Exit(stack, env) ==
  LET n == Len(stack)
      f == stack[n]
      v == Leave(f.n, f.v, env)
  IN IF n = 1 THEN << [n |-> f.n, v |-> v] >>      \* the root keeps the result
     ELSE [SubSeq(stack, 1, n - 1) EXCEPT ![n - 1] = Give(f.n, v, @)]
Capture(c, stack) == [stack EXCEPT ![Len(stack)].v = @ \o Utf8(c)]
=============================================================================
