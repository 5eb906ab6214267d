-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* The properties, stated on the specification and checked exhaustively    *)
(* for all texts made of few pieces.  They do not mention the machine's    *)
(* threads or the walker's frames: they relate the results of different    *)
(* texts, or a result and its text.                                        *)
(*                                                                         *)
(* A state is a text that can still be continued; each is extended by each *)
(* piece.                                                                  *)
(***************************************************************************)
EXTENDS Rfc5322, FiniteSets

CONSTANTS Goal,     \* the goal
          Begin,    \* what the texts begin with
          Pieces,   \* the pieces they go on with
          MaxPieces

VARIABLES used,     \* the pieces used
          live      \* the machine's threads
lvars == << used, live, vars >>

W == [reader |-> "base", year |-> 2026]
Flat(ps) == FlattenSeq(ps)
TextOf(ps) == Begin \o Flat(ps)
P(text) == Parse(Goal, text, W)

LInit == /\ used = << >> /\ live = ReadAll(Start(Goal), Begin)
         /\ world = W /\ pending = << >> /\ owned = << >> /\ heap = << >>
LNext == /\ Len(used) < MaxPieces /\ live # << >>
         /\ \E p \in Pieces : used' = Append(used, p) /\ live' = ReadAll(live, p)
         /\ UNCHANGED vars

Result == IF live = << >> THEN Failed ELSE IF TextOf(used) = << >> THEN P(<< >>) ELSE Finish(live, W)

----------------------------------------------------------------------------
(* The machine finds the first derivation: a search through all of them, in *)
(* order, with complete backtracking, finds the same.                       *)
RECURSIVE Search(_, _, _, _)
Search(cont, text, i, deriv) ==
  IF cont = << >> THEN IF i = Len(text) + 2 THEN << deriv >> ELSE << >>
  ELSE LET sy == Head(cont)  t == Tail(cont)
       IN IF IsProd(sy) THEN
            FoldLeft(LAMBDA acc, alt : IF acc # << >> THEN acc ELSE Search(alt \o t, text, i, deriv), << >>, Alts[sy])
          ELSE IF IsTerm(sy) THEN
            IF i > Len(text) + 1 THEN << >>
            ELSE LET tok == IF i = Len(text) + 1 THEN EOF ELSE Tok(text[i])
                 IN IF tok \notin TokSet(sy) THEN << >>
                    ELSE Search(t, text, i + 1, IF sy \in Captures THEN Append(deriv, -text[i] - 1) ELSE deriv)
          ELSE Search(t, text, i, Append(deriv, sy))
Searched(text) == LET d == Search(<< SymNo(Goal) >>, text, 1, << >>)
                  IN IF d = << >> THEN Failed ELSE [ok |-> TRUE, v |-> Walk(d[1], W)]
FirstDerivation == used # << >> => Result = Searched(TextOf(used))

----------------------------------------------------------------------------
\* Lists: two lists with a separator between them are one list (the separator stands for itself).
ConcatLaw ==
  Result.ok => \A k \in 2..(Len(used) - 1) :
    used[k] \in { << 44 >>, << 59 >> } =>
      LET a == P(TextOf(SubSeq(used, 1, k - 1)))
          b == P(Flat(SubSeq(used, k + 1, Len(used))))
      IN a.ok /\ b.ok => Result.v = a.v \o b.v
\* ... and both being lists is enough for there to be one.
JoinLaw ==
  Result.ok => LET t == TextOf(used) IN
    t # << >> => \A other \in { << 97, 64, 98 >>, << 60, 62 >>, << 78, 60, 97, 64, 98, 62 >> } :
      LET x == P(t \o << 44 >> \o other)  y == P(other \o << 44 >> \o t)  o == P(other)
      IN x.ok /\ y.ok /\ x.v = Result.v \o o.v /\ y.v = o.v \o Result.v
\* Empty members: a comma more, before or after, changes nothing.
CommaLaw ==
  Result.ok /\ TextOf(used) # << >> => LET t == TextOf(used) IN
    \A x \in { << 44 >> \o t, t \o << 44 >>, << 44, 32, 44 >> \o t, t \o << 44, 40, 41, 44 >> } :
       LET r == P(x) IN r.ok => r.v = Result.v
\* Groups: the members in place, without the name.
GroupLaw ==
  Result.ok /\ TextOf(used) # << >> /\ (\A k \in 1..Len(used) : used[k] \notin { << 58 >>, << 59 >> })
    => LET g == P(<< 103, 58 >> \o TextOf(used) \o << 59 >>)
           h == P(<< 120, 64, 121, 44, 103, 58 >> \o TextOf(used) \o << 59, 44, 122, 64, 119 >>)
       IN /\ g = Result
          /\ h.ok /\ h.v = << << << >>, << 120, 64, 121 >> >> >> \o Result.v \o << << << >>, << 122, 64, 119 >> >> >>

\* Comments: a space does as well.
Comment1 == << 40, 99, 41 >>
CommentLaw ==
  LET t == TextOf(used)
      plain == Begin \o Flat([k \in 1..Len(used) |-> IF used[k] = Comment1 THEN << 32 >> ELSE used[k]])
      deep == Begin \o Flat([k \in 1..Len(used) |-> IF used[k] = Comment1 THEN << 40, 40, 92, 41, 41, 13, 10, 32, 97, 64, 98, 44, 41 >> ELSE used[k]])
  IN (\E k \in 1..Len(used) : used[k] = Comment1) /\ Result.ok => P(plain) = Result /\ P(deep) = Result
\* White space: how much of it, and whether folded (once), does not matter.
SpaceLaw ==
  LET fold == Begin \o Flat([k \in 1..Len(used) |-> IF used[k] = << 32 >> THEN << 9, 13, 10, 32, 9 >> ELSE used[k]])
  IN (\E k \in 1..Len(used) : used[k] = << 32 >>) /\ (\A k \in 2..Len(used) : used[k - 1] = << 32 >> => used[k] # << 32 >>) /\ Result.ok => P(fold) = Result

----------------------------------------------------------------------------
\* What the entries look like.  (The pieces contain no encoded words.)
Sub(s, t) == FoldLeft(LAMBDA k, ch : IF k <= Len(s) /\ s[k] = ch THEN k + 1 ELSE k, 1, t) = Len(s) + 1
Bare(s) == SelectSeq(s, LAMBDA ch : ch # 32)
NoBreaks == Result.ok => \A k \in 1..Len(Result.v) : \A m \in 1..2 : \A j \in 1..Len(Result.v[k][m]) : Result.v[k][m][j] \notin {10, 13}
\* Nothing is made up, and nothing changes places.
NothingAdded == Result.ok => LET bytes == FlattenSeq([j \in 1..Len(TextOf(used)) |-> Utf8(TextOf(used)[j])]) IN
  \A k \in 1..Len(Result.v) : Sub(Bare(Result.v[k][1]), bytes) /\ Sub(Result.v[k][2], bytes)
\* The names come in the order of the text, and so do the addresses.
InOrder == Result.ok => LET bytes == FlattenSeq([j \in 1..Len(TextOf(used)) |-> Utf8(TextOf(used)[j])]) IN
  Sub(FlattenSeq([k \in 1..Len(Result.v) |-> Bare(Result.v[k][1]) \o Result.v[k][2]]), bytes)
Shape == Result.ok => \A k \in 1..Len(Result.v) :
  LET a == Result.v[k][2] IN a = << >> \/ \E j \in 1..Len(a) : a[j] = 64
\* Names without quoted words have single spaces, and only between words.
Spaces == Result.ok => \A k \in 1..Len(Result.v) : LET n == Result.v[k][1] IN
  n # << >> => /\ n[1] # 32 /\ n[Len(n)] # 32 /\ \A j \in 1..(Len(n) - 1) : ~(n[j] = 32 /\ n[j + 1] = 32)
               /\ \A j \in 1..Len(n) : n[j] \notin {9, 40, 41}
\* A route does not matter.
Route1 == << 60, 64, 114, 44, 64, 115, 58 >>      \* <@r,@s:
RouteLaw ==
  LET plain == Begin \o Flat([k \in 1..Len(used) |-> IF used[k] = Route1 THEN << 60 >> ELSE used[k]])
  IN (\E k \in 1..Len(used) : used[k] = Route1) /\ Result.ok => P(plain) = Result

\* A quoted string is its content: for every text over the pieces.
QuoteOf(s) == << 34 >> \o FlattenSeq([k \in 1..Len(s) |-> IF s[k] \in {34, 92} THEN << 92, s[k] >> ELSE << s[k] >>]) \o << 34 >>
AllQuoted(s) == << 34 >> \o FlattenSeq([k \in 1..Len(s) |-> << 92, s[k] >>]) \o << 34 >>
\* With each space that begins a run, a line break.
Folds(s) == FlattenSeq([k \in 1..Len(s) |-> IF s[k] = 32 /\ k > 1 /\ s[k-1] \notin {9, 32} THEN << 13, 10, 32 >> ELSE << s[k] >>])
RawNext == Len(used) < MaxPieces /\ \E p \in Pieces : used' = Append(used, p) /\ UNCHANGED << live, vars >>
QuoteLaw ==
  LET s == Flat(used)  v == FlattenSeq([k \in 1..Len(s) |-> Utf8(s[k])])
      at(x) == P(x \o << 64, 98 >>)  in(x) == P(x \o << 32, 60, 97, 64, 98, 62 >>)
      local == [ok |-> TRUE, v |-> << << << >>, v \o << 64, 98 >> >> >>]
      name  == [ok |-> TRUE, v |-> << << v, << 97, 64, 98 >> >> >>]
  IN \A q \in { QuoteOf(s), AllQuoted(s), Folds(QuoteOf(s)) } : at(q) = local /\ in(q) = name

----------------------------------------------------------------------------
\* Dates.
Upcase(s) == [k \in 1..Len(s) |-> IF s[k] \in 97..122 THEN s[k] - 32 ELSE s[k]]
SameTime(a, b) == a.ok = b.ok /\ (a.ok => [a.v EXCEPT !.zone = Utc] = [b.v EXCEPT !.zone = Utc])
CaseLaw == SameTime(Result, P(Upcase(TextOf(used)))) /\ SameTime(Result, P(Lower(TextOf(used))))
\* A day of the week more or less, and which one, does not matter.
Dow1 == << 77, 111, 110, 44 >>
DowLaw == used # << >> /\ used[1] = Dow1 =>
  /\ Result.ok => P(Flat(Tail(used))) = Result
  /\ P(<< 83, 117, 110, 44 >> \o Flat(Tail(used))) = Result
\* Nothing may follow a date-time but white space and comments.
EndLaw == Result.ok /\ used # << >> => \A ch \in { 97, 64, 46, 34 } :
  ~P(TextOf(used) \o << 32, ch >>).ok /\ P(TextOf(used) \o << 32 >>) = Result
\* A pair of parentheses is missing or not balanced: never accepted.  (The pieces contain no quotes.)
Balance == Result.ok => LET t == TextOf(used) IN Cardinality({ k \in 1..Len(t) : t[k] = 40 }) = Cardinality({ k \in 1..Len(t) : t[k] = 41 })
=============================================================================
