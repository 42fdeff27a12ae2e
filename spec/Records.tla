---- MODULE Records ----
(***************************************************************************)
(* Skeleton of the trace specifications whose trace is a set of            *)
(* independent observations, stored in numbered block files so that TLC's  *)
(* workers read and check them in parallel.  One transition per recorded   *)
(* observation; its verdict is OkRec(r).                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS NBlocks,      \* number of block files
          ReadBlock(_), \* the observations of a block
          OkRec(_)      \* is this observation allowed by the specification?

VARIABLES pos,    \* <<"root", 0, 0>>, <<"block", b, 0>>, <<"rec", b, i>>
          good    \* verdict of the observation at pos
rvars == <<pos, good>>

RInit == pos = <<"root", 0, 0>> /\ good = TRUE

OpenBlock == /\ pos[1] = "root"
             /\ \E b \in 1..NBlocks : pos' = <<"block", b, 0>>
             /\ good' = TRUE

Observe == /\ pos[1] = "block"
           /\ \E recs \in {ReadBlock(pos[2])} :   \* (read once)
                  \E i \in 1..Len(recs) : pos' = <<"rec", pos[2], i>> /\ good' = OkRec(recs[i])

RNext == OpenBlock \/ Observe
RSpec == RInit /\ [][RNext]_rvars

\* Every recorded observation is one the specification allows.
Conforms == good
====
