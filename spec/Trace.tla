------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Checks recorded histories of the real library against Rfc5322.          *)
(*                                                                         *)
(* The file named by the environment variable TRACE holds a sequence of    *)
(* histories, each a sequence of events.  Every history is one behaviour;  *)
(* TLC's workers check them in parallel.  An event that Rfc5322 does not   *)
(* allow is printed (REJECT, with what the specification expected), and    *)
(* the history is resumed from the observed state, so that the rest of it  *)
(* is checked too.                                                         *)
(***************************************************************************)
EXTENDS Std, Json, IOUtils

Histories == JsonDeserialize(IOEnv.TRACE)

VARIABLES hist, pos      \* which history, and the next event of it
tvars == << vars, hist, pos >>

TraceInit == /\ hist \in 1..Len(Histories) /\ pos = 1
             /\ world = [reader |-> "none", year |-> 2026]
             /\ pending = << >> /\ owned = << >> /\ heap = << >>

Event == /\ pos <= Len(Histories[hist]) /\ pos' = pos + 1 /\ hist' = hist

Reject(expected) == PrintT(ToJson([reject |-> [h |-> hist, l |-> pos], expected |-> expected]))

\* The driver names objects and cells where it is asked to; elsewhere they are new ones.
Objs(E)  == IF "objs" \in DOMAIN E THEN E.objs ELSE IF E.r.ok THEN NewNames(DOMAIN heap, Len(E.r.v)) ELSE << >>
Room(E) == IF "room" \in DOMAIN E THEN E.room ELSE << >>
GoalOf(id) == IF id \in DOMAIN pending THEN pending[id].goal ELSE "none"

TReturn(E) ==
  LET id == E.id
      list == GoalOf(id) = "addressList"
      objs == IF list THEN Objs(E) ELSE << >>
      room == IF list THEN Room(E) ELSE << >>
  IN IF ENABLED Return(id, E.r, objs, room) THEN Return(id, E.r, objs, room)
     ELSE /\ Reject(IF list /\ ~Separate(objs, room) THEN "memory of its own"
                    ELSE IF id \in DOMAIN pending THEN Parse(pending[id].goal, pending[id].text, world) ELSE "no such call")
          /\ Place(id, list, E.r, objs, room) /\ pending' = Without(pending, id) /\ UNCHANGED world

TLook(id, r) ==
  IF ENABLED Look(id, r) THEN Look(id, r)
  ELSE /\ Reject(IF id \in DOMAIN owned THEN Seen(owned[id], heap) ELSE "no such result")
       /\ owned' = (id :> [ok |-> TRUE, v |-> IF r.ok THEN r.v ELSE << >>]) @@ owned /\ heap' = Only(heap, owned') /\ UNCHANGED << world, pending >>

TWrite(E) ==
  LET list == IsList(owned[E.id])
  IN Write(E.id, E.r, IF list THEN Objs(E) ELSE << >>, IF list THEN Room(E) ELSE << >>)

\* Invoke and Return in one step, the result being dropped: most calls.
Call(goal, text, r) ==
  /\ IF Allowed(goal, text, world, r) THEN TRUE ELSE Reject(Parse(goal, text, world))
  /\ UNCHANGED vars

\* A call whose text was written (by one of the writers) to mean something.
Intended(want, r) ==
  /\ IF r.ok /\ r.v = want THEN TRUE ELSE Reject([intended |-> want])
  /\ UNCHANGED vars
\* A call with a text that is not UTF-8: any result or error, but only one of them.
Robust(r) ==
  /\ IF r = Failed \/ (r.ok /\ DOMAIN r = {"ok", "v"}) THEN TRUE ELSE Reject("a result or an error")
  /\ UNCHANGED vars

\* A call whose text is known to be in the language, or not (module Cover).
Language(ok, r) ==
  /\ IF r.ok = ok /\ (~ok => r = Failed) THEN TRUE ELSE Reject(IF ok THEN "a result" ELSE Failed)
  /\ UNCHANGED vars

\* What the standard library wrote: not a matter of the library under test, but of module Std.
Wrote(text, want) ==
  /\ IF text = StdList(want) THEN TRUE ELSE PrintT(ToJson([stdoff |-> text, expected |-> StdList(want)]))
  /\ UNCHANGED vars

Step(E) ==
  CASE E.e = "call"   -> Call(E.goal, E.text, E.r)
    [] E.e = "intended" -> Intended(E.want, E.r)
    [] E.e = "language" -> Language(E.want, E.r)
    [] E.e = "robust" -> Robust(E.r)
    [] E.e = "std"    -> Wrote(E.text, E.want)
    [] E.e = "invoke" -> Invoke(E.id, E.goal, E.text)
    [] E.e = "return" -> TReturn(E)
    [] E.e = "look"   -> TLook(E.id, E.r)
    [] E.e = "write"  -> TWrite(E)
    [] E.e = "drop"   -> Drop(E.id)
    [] E.e = "reader" -> SetReader(E.reader)
    [] E.e = "year"   -> SetYear(E.year)

TraceNext == Event /\ \E E \in {Histories[hist][pos]} : Step(E)   \* \E: read the event once

TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* Every event of every history was read.
Accepted == TLCGet("stats").distinct = FoldLeft(LAMBDA a, x : a + Len(x) + 1, 0, Histories)
=============================================================================
