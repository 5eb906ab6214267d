----------------------------- MODULE AddrWriter -----------------------------
(***************************************************************************)
(* Writes address lists, address by address and word by word, and keeps    *)
(* the list that the text is meant to denote.  Each finished text is       *)
(* checked against the machine and printed, and writing starts again.      *)
(*                                                                         *)
(* Conf is what is written: a record of chances (of 10) and bounds.        *)
(***************************************************************************)
EXTENDS Writer

CONSTANT Conf
\* reader; list: at most so many addresses (members) ; groups, named, gaps, quoted, encoded, obs,
\* literal, port, route, empty, uni: chances of 10; words: at most so many words in a name;
\* size: at most so many characters in a quoted string or parts of a dot-atom

VARIABLES written,    \* the text so far
          denoted,  \* the list it denotes
          stage,   \* "begin" an address, in a "name", "after" an address
          dname,    \* the display name being written: [v, words, enc]
          lst      \* [style, left, group]: "plain" or "obs" list, addresses left to write, in a group or not

wvars == << written, denoted, stage, dname, lst >>
WorldOf == [reader |-> Conf.reader, year |-> 2026]
NoName == [v |-> << >>, words |-> 0, enc |-> FALSE]
NewList(q) == [style |-> IF Chance(Conf.obs, 10) THEN "obs" ELSE "plain", left |-> RandomElement(1..Conf.list), group |-> FALSE]

Init == written = << >> /\ denoted = << >> /\ stage = "begin" /\ dname = NoName /\ lst = NewList(0)

Gap1(q) == Gap0(Conf.gaps, 10)
GapN(q) == IF Chance(Conf.gaps, 10) THEN Gap(q) ELSE << 32 >>

----------------------------------------------------------------------------
\* addr-spec.  An obsolete local part is words with dots between them.
ObsLocal(q) ==
  Times(RandomElement(2..3), Empty, LAMBDA acc, k :
      Cat(acc, The({ [t |-> IF k = 1 THEN w.t ELSE Gap1(k) \o << 46 >> \o Gap1(k) \o w.t,
                      v |-> (IF k = 1 THEN << >> ELSE << 46 >>) \o w.v] :
                     w \in { IF Chance(1, 2) THEN Atom(RandomElement(1..4), Conf.uni) ELSE Quoted(RandomElement(0..3), Conf.uni) } })))
Local(q) ==
  CASE Chance(Conf.quoted, 20) -> Quoted(RandomElement(0..Conf.size), Conf.uni)
    [] Chance(Conf.obs, 30) -> ObsLocal(q)
    [] OTHER -> DotAtom(RandomElement(1..Conf.size), Conf.uni)
Domain(q) ==
  CASE Chance(Conf.literal, 10) -> Literal(RandomElement(0..Conf.size))
    [] Chance(Conf.literal, 20) -> Cat(DotAtom(RandomElement(1..Conf.size), Conf.uni), Same(<< 46 >>))
    [] OTHER -> DotAtom(RandomElement(1..Conf.size), Conf.uni)
Port(q) == Same(<< 58 >> \o Chars(RandomElement(1..5), LAMBDA k : RandomElement(48..57)))
Blank1(q) == [t |-> Gap1(q), v |-> << >>]
Spec(q) ==
  Cat(Cat(Cat(Blank1(q), Local(q)), Blank1(q)),
      Cat(Cat(Same(<< 64 >>), Cat(Blank1(q), Domain(q))), Cat(Blank1(q), IF Chance(Conf.port, 10) THEN Port(q) ELSE Empty)))

RouteText(q) ==
  Times(RandomElement(0..2), << 64 >> \o Gap1(q) \o Domain(q).t,
        LAMBDA acc, k : acc \o << 44 >> \o Gap1(k) \o (IF Chance(4, 5) THEN << 64 >> \o Domain(k).t ELSE << >>)) \o << 58 >>

Angle(q) ==
  CASE Chance(Conf.empty, 10) -> [t |-> << 60, 62 >>, v |-> << >>]
    [] OTHER -> The({ [t |-> << 60 >> \o (IF Chance(Conf.route, 10) THEN RouteText(q) ELSE << >>) \o x.t \o << 62 >>, v |-> x.v] :
                      x \in {Spec(q)} })

----------------------------------------------------------------------------
\* Between addresses.  Empty members are obsolete.
Separator(q) ==
  IF lst.style = "plain" THEN (IF ~lst.group /\ Chance(1, 4) THEN << 59 >> ELSE << 44 >>)
  ELSE Times(RandomElement(0..2), << 44 >>, LAMBDA acc, k : acc \o Gap1(k) \o << 44 >>)
Leading(q) == IF lst.style = "obs" THEN Times(RandomElement(0..2), << >>, LAMBDA acc, k : acc \o Gap1(k) \o << 44 >>) ELSE << >>
Trailing(q) == IF lst.style = "obs" THEN Times(RandomElement(0..2), << >>, LAMBDA acc, k : acc \o << 44 >> \o Gap1(k)) ELSE << >>

Word(q) ==
  CASE Chance(Conf.encoded, 10) -> << "enc", Encoded(Conf.reader) >>
    [] Chance(Conf.quoted, 10)  -> << "word", Quoted(RandomElement(1..Conf.size), Conf.uni) >>
    [] OTHER -> << "word", Atom(RandomElement(1..Conf.size + 2), Conf.uni) >>

\* Words are joined by one space, adjacent encoded words by none.
AddToName(n, kind, w) ==
  [v |-> IF n.words = 0 \/ (n.enc /\ kind = "enc") THEN n.v \o w.v
         ELSE IF n.v = << >> THEN w.v ELSE n.v \o << 32 >> \o w.v,
   words |-> n.words + 1, enc |-> kind = "enc"]

WriteWord ==
  /\ stage \in {"begin", "name"} /\ dname.words < Conf.words
  /\ stage = "begin" => Chance(Conf.named, 10)
  /\ \E w \in {Word(0)} :
       /\ written' = written \o (IF dname.words = 0 THEN Gap1(0) ELSE GapN(0)) \o w[2].t
       /\ dname' = AddToName(dname, w[1], w[2])
  /\ stage' = "name" /\ UNCHANGED << denoted, lst >>

Denote(n, a) == denoted' = Append(denoted, << n, a >>)
Written == /\ lst' = [lst EXCEPT !.left = @ - 1] /\ stage' = "after" /\ dname' = NoName

WriteAngle ==
  /\ stage \in {"begin", "name"}
  /\ stage = "begin" => Chance(1, 8)
  /\ \E x \in {Angle(0)} : written' = written \o Gap1(0) \o x.t \o Gap1(1) /\ Denote(dname.v, x.v)
  /\ Written

WriteSpec ==
  /\ stage = "begin"
  /\ \E x \in {Spec(0)} : written' = written \o x.t /\ Denote(<< >>, x.v)
  /\ Written

\* A group: its name is dropped, its members stay in their place.
OpenGroup ==
  /\ stage = "begin" /\ ~lst.group /\ Chance(Conf.groups, 10)
  /\ \E w \in {Word(0)}, w2 \in { IF Chance(1, 3) THEN GapN(0) \o Word(1)[2].t ELSE << >> } :
       written' = written \o Gap1(0) \o w[2].t \o w2 \o Gap1(1) \o << 58 >>
  /\ \E style \in { IF Chance(Conf.obs, 10) THEN "obs" ELSE "plain" } :
       lst' = [style |-> style, left |-> RandomElement(0..Conf.list), group |-> TRUE, outer |-> lst]
  /\ stage' = (IF lst'.left = 0 THEN "after" ELSE "members") /\ UNCHANGED << denoted, dname >>
Members ==
  /\ stage = "members" /\ written' = written \o Leading(0) /\ stage' = "begin" /\ UNCHANGED << denoted, dname, lst >>
CloseGroup ==
  /\ stage = "after" /\ lst.group /\ lst.left = 0
  /\ \E tail \in { IF written[Len(written)] = 58 THEN Gap1(0) ELSE Trailing(0) } : written' = written \o tail \o << 59 >> \o Gap1(0)
  /\ lst' = [lst.outer EXCEPT !.left = @ - 1] /\ UNCHANGED << denoted, stage, dname >>

Separate ==
  /\ stage = "after" /\ lst.left > 0
  /\ written' = written \o Separator(0) /\ stage' = "begin" /\ UNCHANGED << denoted, dname, lst >>

\* The text is complete.  Under -simulate, the behaviour goes on with another one.
Finished(full) == [goal |-> "addressList", text |-> full, reader |-> Conf.reader, want |-> denoted]
Restart == written' = << >> /\ denoted' = << >> /\ stage' = "begin" /\ dname' = NoName /\ lst' = NewList(0)
Emit ==
  /\ stage = "after" /\ ~lst.group /\ lst.left = 0
  /\ \E full \in { Leading(0) \o written \o Trailing(0) } :
       \E r \in { Run("addressList", full, WorldOf) } :
         IF r.ok /\ r.v = denoted THEN PrintT(ToJson(Finished(full)))
         ELSE PrintT(ToJson([disagree |-> Finished(full), machine |-> r]))
  /\ Restart

Next == WriteWord \/ WriteAngle \/ WriteSpec \/ OpenGroup \/ Members \/ CloseGroup \/ Separate \/ Emit
=============================================================================
