------------------------------ MODULE Rfc5322 ------------------------------
(***************************************************************************)
(* The library as its users see it: callers, the two parse functions, the  *)
(* replaceable charset reader, the clock, and the results the callers own. *)
(*                                                                         *)
(* A call is two steps, Invoke and Return, so that calls overlap.  What a  *)
(* call returns is a function of its goal, its text, the installed reader  *)
(* and the clock's year, and of nothing else: not of earlier calls, not of *)
(* calls in progress, not of what callers did to the results they own.     *)
(*                                                                         *)
(* The results live in memory that callers may write to.  A list is a      *)
(* slice of pointers: its entries are objects on the heap, and it has room *)
(* (memory cells) that an append may use.  That a caller's writes are seen *)
(* by nobody else is no assumption here.  It follows from what Return      *)
(* demands: all objects and cells of a new result are new.                 *)
(***************************************************************************)
EXTENDS Machine, TLC, FiniteSets

VARIABLES world,    \* [reader |-> charset reader installed, year |-> the clock's year]
          pending,  \* calls in progress: call id -> [goal, text]
          owned,    \* finished calls: call id -> the result, as its caller holds it
          heap      \* the objects that callers can reach: object -> << name, address >>

vars == << world, pending, owned, heap >>

Goals   == {"addressList", "dateTime"}
Readers == {"none", "base", "alt", "any"}

Failed == [ok |-> FALSE]
\* The empty text is an empty list, or the zero time.
ZeroTime == [day |-> 1, mon |-> 1, year |-> 1, hour |-> 0, min |-> 0, sec |-> 0, off |-> 0, zone |-> Utc]
Parse(goal, text, e) ==
  IF text = << >> THEN [ok |-> TRUE, v |-> IF goal = "dateTime" THEN ZeroTime ELSE << >>]
  ELSE Run(goal, text, e)

(***************************************************************************)
(* A date-time result, as callers see it, is [days, secs] since 1970 in    *)
(* UTC, the fields as shown in its own zone, and the zone.                 *)
(***************************************************************************)
DateView(d) ==
  LET local == Instant([d EXCEPT !.off = 0])
  IN [instant |-> Instant(d), local |-> local, off |-> d.off, zone |-> d.zone]

\* Is the observed result r one that a call may return?  Dates with a field out of range
\* may be rejected, or carried over into the next larger field.
Matches(goal, x, r) ==
  IF ~x.ok THEN r = Failed
  ELSE IF goal = "addressList" THEN r.ok /\ r.v = x.v
  ELSE IF InRange(x.v) THEN r.ok /\ r.v = DateView(x.v)
  ELSE r = Failed \/ (r.ok /\ r.v = DateView(x.v))
Allowed(goal, text, e, r) == \E x \in { Parse(goal, text, e) } : Matches(goal, x, r)

(***************************************************************************)
(* What is owned is Failed, [ok |-> TRUE, v |-> a date], or                *)
(* [ok |-> TRUE, list |-> objects, room |-> cells].                        *)
(***************************************************************************)
IsList(o) == "list" \in DOMAIN o
\* What the caller sees.
Seen(o, mem) == IF IsList(o) THEN [ok |-> TRUE, v |-> [k \in 1..Len(o.list) |-> mem[o.list[k]]]] ELSE o
Reach(f) == UNION { ToSet(f[id].list) : id \in { x \in DOMAIN f : IsList(f[x]) } }
Cells(f) == UNION { ToSet(f[id].room) : id \in { x \in DOMAIN f : IsList(f[x]) } }
\* What nobody can reach is no longer there.
Only(mem, f) == LET R == Reach(f) IN IF R = DOMAIN mem THEN mem ELSE [x \in R |-> mem[x]]
\* The n least names that are not used.
NewNames(used, n) == SubSeq(SetToSortSeq((1..(Cardinality(used) + n)) \ used, <), 1, n)
Distinct(q) == Cardinality(ToSet(q)) = Len(q)
\* A new result shares no memory with another one, nor its entries with each other.
Separate(objs, cells) == /\ Distinct(objs) /\ ToSet(objs) \cap DOMAIN heap = {}
                         /\ ToSet(cells) \cap Cells(owned) = {}

TypeOK ==
  /\ world.reader \in Readers
  /\ DOMAIN pending \cap DOMAIN owned = {}
  /\ \A id \in DOMAIN pending : pending[id].goal \in Goals
  /\ Reach(owned) = DOMAIN heap

Init == /\ world \in [reader : {"none"}, year : Nat]
        /\ pending = << >> /\ owned = << >> /\ heap = << >>

Without(f, id) == [x \in DOMAIN f \ {id} |-> f[x]]

Invoke(id, goal, text) ==
  /\ id \notin DOMAIN pending \cup DOMAIN owned
  /\ pending' = (id :> [goal |-> goal, text |-> text]) @@ pending
  /\ UNCHANGED << world, owned, heap >>

\* Puts a result there that a caller sees as r; a list is made of these objects and cells.
Place(id, list, r, objs, cells) ==
  IF list /\ r.ok
  THEN /\ owned' = (id :> [ok |-> TRUE, list |-> objs, room |-> cells]) @@ owned
       /\ heap' = Only([x \in ToSet(objs) |-> r.v[CHOOSE k \in 1..Len(objs) : objs[k] = x]] @@ heap, owned')
  ELSE /\ owned' = (id :> r) @@ owned /\ heap' = Only(heap, owned')

Return(id, r, objs, cells) ==
  /\ id \in DOMAIN pending
  /\ Allowed(pending[id].goal, pending[id].text, world, r)
  /\ Separate(objs, cells)
  /\ Place(id, pending[id].goal = "addressList", r, objs, cells)
  /\ pending' = Without(pending, id)
  /\ UNCHANGED world

\* A caller looks again at a result it owns: nobody else has changed it.
Look(id, r) == id \in DOMAIN owned /\ Seen(owned[id], heap) = r /\ UNCHANGED vars
\* A caller changes a result it owns: its objects, their order, or which ones they are.
Write(id, r, objs, cells) == id \in DOMAIN owned /\ Place(id, IsList(owned[id]), r, objs, cells) /\ UNCHANGED << world, pending >>
\* A caller drops a result.
Drop(id) == id \in DOMAIN owned /\ owned' = Without(owned, id) /\ heap' = Only(heap, owned') /\ UNCHANGED << world, pending >>

\* The reader and the clock change while no call is in progress.
SetReader(r) == pending = << >> /\ world' = [world EXCEPT !.reader = r] /\ UNCHANGED << pending, owned, heap >>
SetYear(y)   == pending = << >> /\ world' = [world EXCEPT !.year = y] /\ UNCHANGED << pending, owned, heap >>
=============================================================================
