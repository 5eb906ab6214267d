------------------------------- MODULE System -------------------------------
(***************************************************************************)
(* Callers that share the library: a pool of calls, made one by one and at *)
(* the same time, readers installed in between, results kept, looked at,   *)
(* scribbled on and dropped.  This module                                  *)
(*   - is checked exhaustively for a few callers (MCSystem), and           *)
(*   - under -simulate, prints schedules for the driver to carry out on    *)
(*     the real library; what it did is then checked by module Trace.      *)
(***************************************************************************)
EXTENDS Rfc5322, Json, FiniteSets

CONSTANTS Pool,     \* the calls: a sequence of [goal, text]
          Ids,      \* names of calls
          Burst,    \* at most so many calls at a time
          Sharing,  \* TRUE: a result may be made of the objects of another one (what must not be)
          Extras,   \* TRUE: also change time.Local, and collect garbage
          MaxLog    \* the length of a schedule (0: keep no schedule)

The(S) == CHOOSE x \in S : TRUE

VARIABLES made,     \* the call each owned result comes from: [call, reader, touched]
          log,      \* the schedule so far, for the driver
          group     \* the calls of the current overlapping group

svars == << world, pending, owned, heap, made, log, group >>

\* What the calls of the pool return; computed once.
Meaning == [rd \in Readers |-> [k \in 1..Len(Pool) |->
  The({ IF ~x.ok THEN Failed ELSE IF Pool[k].goal = "dateTime" THEN [ok |-> TRUE, v |-> DateView(x.v)] ELSE x :
        x \in { Parse(Pool[k].goal, Pool[k].text, [reader |-> rd, year |-> 2026]) } })]]

SInit == /\ world = [reader |-> "none", year |-> 2026] /\ pending = << >> /\ owned = << >> /\ heap = << >>
         /\ made = << >> /\ log = << >> /\ group = << >>

Log(op) == log' = IF MaxLog = 0 THEN log ELSE Append(log, op)
Quiet == pending = << >>

SInvoke == \E id \in Ids, k \in 1..Len(Pool) :
  /\ id \notin DOMAIN pending \cup DOMAIN owned /\ Cardinality(DOMAIN pending) < Burst /\ Len(group) < Burst
  /\ \A x \in Ids : x < id => x \in DOMAIN pending \cup DOMAIN owned        \* the next free name
  /\ pending' = (id :> [goal |-> Pool[k].goal, text |-> Pool[k].text, call |-> k]) @@ pending
  /\ group' = Append(group, [id |-> id, goal |-> Pool[k].goal, text |-> Pool[k].text])
  /\ UNCHANGED << world, owned, heap, made, log >>

\* New names, by owner (so that states that differ in names only are few).
Names(id, n) == [k \in 1..n |-> 100 * id + k]
SReturn == \E id \in DOMAIN pending :
  LET k == pending[id].call
      last == DOMAIN pending = {id}
      r == Meaning[world.reader][k]
      list == Pool[k].goal = "addressList"
      n == IF list /\ r.ok THEN Len(r.v) ELSE 0
      cells == IF list /\ r.ok THEN Names(id, n + 1) ELSE << >>
  IN /\ \/ Place(id, list, r, Names(id, n), cells)
        \/ /\ Sharing /\ list /\ r.ok
           /\ \E x \in DOMAIN owned : /\ IsList(owned[x]) /\ Seen(owned[x], heap) = r
                                     /\ Place(id, TRUE, r, owned[x].list, cells)
     /\ made' = (id :> [call |-> k, reader |-> world.reader, touched |-> FALSE]) @@ made
     /\ pending' = Without(pending, id)
     /\ IF last THEN Log([e |-> "par", calls |-> group]) /\ group' = << >> ELSE UNCHANGED << log, group >>
     /\ UNCHANGED world

SSetReader == \E rd \in Readers \ {world.reader} :
  /\ SetReader(rd) /\ Log([e |-> "reader", reader |-> rd]) /\ UNCHANGED << made, group >>

SLook == /\ Quiet /\ owned # << >> /\ MaxLog > 0
         /\ \E id \in DOMAIN owned : Look(id, Seen(owned[id], heap)) /\ Log([e |-> "look", id |-> id])
         /\ UNCHANGED << made, group >>
\* A caller changes a result of its own: the entries, their order, or it appends one.
Changed(id, o, how) ==
  CASE how = "fields" -> << [k \in 1..Len(o.list) |-> << << 120 >>, << 121 >> >>], o.list >>
    [] how = "swap"   -> << [k \in 1..Len(o.list) |-> heap[o.list[Len(o.list) + 1 - k]]], [k \in 1..Len(o.list) |-> o.list[Len(o.list) + 1 - k]] >>
    [] how = "append" -> << Append(Seen(o, heap).v, << << 122 >>, << >> >>), Append(o.list, 100 * id + 50) >>
SWrite == /\ Quiet
          /\ \E id \in DOMAIN owned, how \in {"fields", "swap", "append"} :
               /\ ~made[id].touched
               /\ IF IsList(owned[id])
                  THEN \E c \in { Changed(id, owned[id], how) } : Write(id, [ok |-> TRUE, v |-> c[1]], c[2], owned[id].room)
                  ELSE UNCHANGED << world, pending, owned, heap >>
               /\ made' = [made EXCEPT ![id].touched = TRUE]
               /\ Log([e |-> "write", id |-> id, how |-> how])
          /\ UNCHANGED group
SDrop == /\ Quiet
         /\ \E id \in DOMAIN owned : Drop(id) /\ made' = Without(made, id) /\ Log([e |-> "drop", id |-> id])
         /\ UNCHANGED group
SExtra == /\ Quiet /\ Extras /\ UNCHANGED << world, pending, owned, heap, made, group >>
          /\ \/ Log([e |-> "gc"])
             \/ \E z \in {"", "UTC", "America/New_York", "Asia/Kolkata", "Pacific/Apia"} : Log([e |-> "local", zone |-> z])
SEmit == /\ Quiet /\ MaxLog > 0 /\ Len(log) >= MaxLog
         /\ PrintT(ToJson([ops |-> log \o SetToSeq({ [e |-> "look", id |-> id] : id \in DOMAIN owned })]))
         /\ log' = << >> /\ owned' = << >> /\ heap' = << >> /\ made' = << >> /\ world' = [world EXCEPT !.reader = "none"]
         /\ UNCHANGED << pending, group >>

SNext == IF MaxLog > 0 /\ Len(log) >= MaxLog /\ Quiet THEN SEmit
         ELSE SInvoke \/ SReturn \/ SSetReader \/ SLook \/ SWrite \/ SDrop \/ SExtra
SSpec == SInit /\ [][SNext]_svars

----------------------------------------------------------------------------
SView == << world, pending, owned, heap, made >>
\* A result is what its call means under the reader of its time, unless its own caller changed it.
Faithful == \A id \in DOMAIN owned : ~made[id].touched => Seen(owned[id], heap) = Meaning[made[id].reader][made[id].call]
\* The same call under the same reader has the same result, whatever happened between.
Deterministic == \A a, b \in DOMAIN owned :
  (made[a].call = made[b].call /\ made[a].reader = made[b].reader /\ ~made[a].touched /\ ~made[b].touched) => Seen(owned[a], heap) = Seen(owned[b], heap)
\* Nothing but a caller's own change changes a result.
Isolated == [][\A id \in DOMAIN owned \cap DOMAIN owned' : (id \in DOMAIN made' /\ made'[id] = made[id]) => Seen(owned'[id], heap') = Seen(owned[id], heap)]_svars
\* No two results, and no two entries of one, share memory.
Apart == /\ \A id \in DOMAIN owned : IsList(owned[id]) => Distinct(owned[id].list)
         /\ \A a, b \in DOMAIN owned : (a # b /\ IsList(owned[a]) /\ IsList(owned[b])) =>
              /\ ToSet(owned[a].list) \cap ToSet(owned[b].list) = {}
              /\ ToSet(owned[a].room) \cap ToSet(owned[b].room) = {}
\* The reader is only replaced while nobody is parsing.
ReaderStable == [][world'.reader # world.reader => pending = << >>]_svars
\* Results depend on the reader for some call (so that the properties are not vacuous).
ReaderMatters == \E k \in 1..Len(Pool) : Meaning["base"][k] # Meaning["alt"][k] /\ Meaning["base"][k] # Meaning["none"][k]
=============================================================================
