------------------------------ MODULE StdLaws ------------------------------
(***************************************************************************)
(* What Go's standard library writes is read back: for all names and local *)
(* parts made of few pieces, and for many times.                           *)
(***************************************************************************)
EXTENDS Std, Json

CONSTANTS Pieces, MaxPieces, Say
VARIABLE used
slvars == << used, vars >>

W == [reader |-> "none", year |-> 2026]
Entry(n, a) == << BytesOf(n), BytesOf(a) >>
AddrOf(l) == l \o << 64, 99, 46, 100 >>

SInit == used = << >> /\ world = W /\ pending = << >> /\ owned = << >> /\ heap = << >>
SNext == Len(used) < MaxPieces /\ \E p \in Pieces : used' = Append(used, p) /\ UNCHANGED vars

Reads(cs) ==
  LET t == StdList(cs)
      want == [k \in 1..Len(cs) |-> Entry(cs[k][1], cs[k][2])]
      r == Parse("addressList", t, W)
  IN /\ r = [ok |-> TRUE, v |-> want]
     /\ Say => PrintT(ToJson([goal |-> "addressList", text |-> t, want |-> want, calls |-> cs]))
A1 == << 97, 46, 98, 64, 99 >>     \* a.b@c
NameLaw  == LET s == FlattenSeq(used) IN Reads(<< << s, A1 >> >>)
LocalLaw == LET s == FlattenSeq(used) IN s # << >> => Reads(<< << << >>, AddrOf(s) >> >>)
BothLaw  == LET s == FlattenSeq(used) IN s # << >> => Reads(<< << s, AddrOf(s) >>, << << >>, A1 >>, << Reverse(s), A1 >> >>)
\* A name of one character, as often as there are pieces used
\* (words must be divided somewhere).
LongLaw  ==
  used # << >> /\ (\E k \in 1..Len(used) : used[k] \notin { << 9 >>, << 32 >> }) => \A n \in { 10, 11, 15, 16, 21, 22, 31, 45, 46, 63, 64 } : Reads(<< << FlattenSeq([k \in 1..n |-> FlattenSeq(used)]), A1 >> >>)

----------------------------------------------------------------------------
TReads(how, d, m) ==
  LET t == StdTime(how, d, m)
      off == 60 * m
      x == [d EXCEPT !.off = IF how = "RFC1123" THEN 0 ELSE off, !.sec = IF how = "RFC822Z" THEN 0 ELSE @,
                     !.zone = IF how = "RFC1123" THEN Utc ELSE OffText(m)]
      r == Parse("dateTime", t, W)
  IN /\ r = [ok |-> TRUE, v |-> x]
     /\ Say => PrintT(ToJson([goal |-> "dateTime", text |-> t, want |-> DateView(x)]))
Hows == << "RFC1123Z", "RFC1123", "RFC822Z", "nodow" >>
\* Minute n of a day, and offset n minutes, in year n.
TInit == used = 0 /\ world = W /\ pending = << >> /\ owned = << >> /\ heap = << >>
TNext == used' \in (16 * used + 1)..(16 * used + 16) /\ used' <= MaxPieces /\ UNCHANGED vars
TimeLaw ==
  LET n == used  y == ((7 * n) % 9999) + 1  mo == (n % 12) + 1  d == (n % DaysIn(y, mo)) + 1
      f == [day |-> d, mon |-> mo, year |-> y, hour |-> (n \div 60) % 24, min |-> n % 60, sec |-> (13 * n) % 60, off |-> 0, zone |-> Utc]
  IN /\ TReads(Hows[(n % 4) + 1], f, n % 1440)
     /\ TReads(Hows[((n + 1) % 4) + 1], f, -(n % 1440))
=============================================================================
