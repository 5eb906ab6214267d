------------------------------- MODULE Cover -------------------------------
(***************************************************************************)
(* The control states of the machine: what it expects, whatever it kept.   *)
(* Characters of the alphabet are read in each of them.  Two states with   *)
(* the same expectations are one (VIEW), so that the search is finite once *)
(* the nesting of comments is bounded.                                     *)
(*                                                                         *)
(* Every state is printed with the text that first reached it, whether the *)
(* text may end there, and where each character leads (0: nowhere); states *)
(* are named by a hash of their expectations.  lib/cover.py turns this     *)
(* graph into texts that take every transition, for the real parser.       *)
(***************************************************************************)
EXTENDS Machine, TLC, Json, FiniteSets

CONSTANTS Goal,     \* the goal symbol
          Prefix,   \* the text that is read first
          Alphabet, \* the characters that are read then; {}: one of each class that the goal tells apart
          Depth,    \* the bound on nested comments
          MaxLen    \* the bound on the length of the text

VARIABLES live, sofar

\* The symbols that the goal is made of.
RECURSIVE ReachFix(_)
ReachFix(S) == LET T == S \cup UNION { UNION { ToSet(Alts[p][k]) : k \in 1..Len(Alts[p]) } : p \in { x \in S : IsProd(x) } }
               IN IF T = S THEN S ELSE ReachFix(T)
GoalTerms == { x \in ReachFix({SymNo(Goal)}) : IsTerm(x) }
Profile(tk) == { x \in GoalTerms : tk \in TokSet(x) }

\* A character of each token, lower case, and of each class of tokens.
CharOf == [tk \in AllToks |-> IF tk = EOF THEN 0 ELSE IF tk = NonAsciiNo THEN 233
              ELSE CHOOSE ch \in 0..127 : ch \notin 65..90 /\ AsciiTokNo[ch] = tk]
Reps == { tk \in AllToks \ {EOF} : \A o \in AllToks \ {EOF} : Profile(o) = Profile(tk) => tk <= o }
ReadChars == IF Alphabet = {} THEN { CharOf[tk] : tk \in Reps } ELSE Alphabet

Expectations == [k \in 1..Len(live) |-> live[k][1]]
RP == SymNo("RParens")
\* Comments that are open, in the thread with most of them.
NestingOf(cont) == Cardinality({ m \in 1..Len(cont) : cont[m] = RP })
Nesting == IF live = << >> THEN 0 ELSE NestingOf(live[1][1])

Hash(ths, mul, mod) ==
  FoldLeft(LAMBDA acc, th : FoldLeft(LAMBDA a, x : (a * mul + x) % mod, (acc * mul + 701) % mod, th[1]), 1, ths)
NameOf(ths) == IF ths = << >> THEN 0 ELSE << Hash(ths, 31, 65521), Hash(ths, 37, 65519), Len(ths) >>

Init == live = ReadAll(Start(Goal), Prefix) /\ sofar = << >>

\* Printed once for each state: successors are computed only for the first text that reaches it.
Describe == PrintT(ToJson([at |-> NameOf(live), text |-> Prefix \o sofar, ok |-> Finish(live, [reader |-> "none", year |-> 2026]).ok,
                           next |-> SetToSeq({ << ch, NameOf(ReadChar(live, ch)) >> : ch \in ReadChars })]))
Next == /\ live # << >> /\ Len(sofar) < MaxLen /\ Nesting <= Depth
        /\ Describe
        /\ \E ch \in ReadChars : /\ live' = ReadChar(live, ch)
                                 /\ live' # << >>
                                 /\ sofar' = Append(sofar, ch)
=============================================================================
