------------------------------ MODULE MCSystem ------------------------------
(* A pool of three calls, for exhaustive checking. *)
EXTENDS System
Cps(bs) == bs
MCPool == << [goal |-> "addressList", text |-> << 97, 64, 98 >>],                     \* a@b
             [goal |-> "addressList",                                                \* =?x-up?q?ab?= <c@d>
              text |-> << 61,63,120,45,117,112,63,113,63,97,98,63,61,32,60,99,64,100,62 >>],
             [goal |-> "dateTime", text |-> << 120 >>] >>                             \* x
=============================================================================
