------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* The parser as a machine that reads one character at a time.             *)
(*                                                                         *)
(* A thread is <<cont, deriv>>: the symbols it still expects to read, and  *)
(* the derivation so far, which is the sequence of the marks passed and of *)
(* the characters kept (as negative numbers).  The machine's state is the  *)
(* sequence of the threads that are still possible, in order of preference *)
(* (earlier alternatives first).  Of several threads with the same         *)
(* expectation only the preferred one is kept: their futures are the same. *)
(* When the input ends, the preferred thread that accepts the end is the   *)
(* derivation of the input, and walking it yields the result.              *)
(***************************************************************************)
EXTENDS Walker

Start(goal) == << << << SymNo(goal) >>, << >> >> >>

RECURSIVE Visit(_, _, _, _, _)
\* st is [seen, out, kept]: expectations already visited, resulting threads, and their expectations.
Visit(cont, deriv, tok, c, st) ==
  IF cont = << >> THEN st
  ELSE
    LET sy == Head(cont)
        t  == Tail(cont)
    IN IF IsProd(sy) THEN
         IF cont \in st.seen THEN st
         ELSE FoldLeftDomain(LAMBDA acc, k :
             IF tok \in AltFirst[sy][k] \/ 0 \in AltFirst[sy][k]
             THEN Visit(Alts[sy][k] \o t, deriv, tok, c, acc) ELSE acc,
             [st EXCEPT !.seen = @ \cup {cont}], Alts[sy])
       ELSE IF IsTerm(sy) THEN
         IF tok \notin TokSet(sy) \/ t \in st.kept THEN st
         ELSE [st EXCEPT !.kept = @ \cup {t},
                         !.out = Append(@, << t, IF sy \in Captures THEN Append(deriv, -c - 1) ELSE deriv >>)]
       ELSE Visit(t, Append(deriv, sy), tok, c, st)

Read(threads, tok, c) ==
  FoldLeft(LAMBDA st, th : Visit(th[1], th[2], tok, c, st),
           [seen |-> {}, out |-> << >>, kept |-> {}], threads).out

ReadChar(threads, c) == Read(threads, Tok(c), c)

\* Walking a derivation: the value of its root.
Walk(deriv, env) ==
  FoldLeft(LAMBDA stack, x :
             IF x < 0 THEN Capture(-x - 1, stack)
             ELSE IF IsEnter(x) THEN Enter(EnterNode(x), stack)
             ELSE Exit(stack, env), << >>, deriv)[1].v

\* The result if the input ended here.
Finish(threads, env) ==
  LET e == Read(threads, EOF, 0)
  IN IF e = << >> THEN [ok |-> FALSE]
     \* the exit mark of the root is still expected
     ELSE [ok |-> TRUE, v |-> Walk(e[1][2] \o e[1][1], env)]

ReadAll(threads, text) == FoldLeft(LAMBDA ths, ch : IF ths = << >> THEN ths ELSE ReadChar(ths, ch), threads, text)
Run(goal, text, env) == Finish(ReadAll(Start(goal), text), env)
=============================================================================
