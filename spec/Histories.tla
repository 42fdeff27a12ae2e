---- MODULE Histories ----
(***************************************************************************)
(* Skeleton of the trace specifications that follow recorded histories:    *)
(* the histories are stored in numbered block files, so that TLC's workers *)
(* read and follow them in parallel.  A history that cannot be followed to *)
(* its end deadlocks.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

VARIABLES at,     \* <<"root", 0, 0>>, <<"block", b, 0>>, <<"history", b, i>>
          rest    \* the events of the history not yet followed
hvars == <<at, rest>>

HBlock(b) == ndJsonDeserialize(IOEnv.VH_BLOCKS \o "/" \o ToString(b))
HBlocks == atoi(IOEnv.VH_NBLOCKS)

HInit == at = <<"root", 0, 0>> /\ rest = <<>>

HOpen ==
    /\ at[1] = "root"
    /\ \E b \in 1..HBlocks : at' = <<"block", b, 0>>
    /\ UNCHANGED rest

HStart ==
    /\ at[1] = "block"
    /\ \E recs \in {HBlock(at[2])} :   \* (read once)
         \E i \in 1..Len(recs) : /\ at' = <<"history", at[2], i>>
                                 /\ rest' = IF recs[i].how = "ok" THEN recs[i].ev ELSE <<[e |-> recs[i].how]>>

\* The next event is ev, and it is followed.
HEvent == at[1] = "history" /\ rest # <<>>
HConsume == rest' = Tail(rest) /\ UNCHANGED at
HEnd == at[1] = "history" /\ rest = <<>>

Position == <<at, Len(rest)>>

\* A reading that all the ways of making it agree on.
Agreed(ways, x) == ways = <<x>>
====
