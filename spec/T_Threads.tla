---- MODULE T_Threads ----
(***************************************************************************)
(* Recordings of threads that each use registries of their own.  The       *)
(* specification is the product of one CoilExec per thread: in each step   *)
(* one thread's next event is an action of that thread's CoilExec, and     *)
(* every other thread's state stays as it is.  So whatever the schedule,   *)
(* each thread observes what it would observe alone.                       *)
(*   order: whose event comes next, for the whole recording                *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

VARIABLES at, order,
          regs1, frames1, store1, made1, dead1, lxmade1, lxdead1, obs1, rest1, past1,
          regs2, frames2, store2, made2, dead2, lxmade2, lxdead2, obs2, rest2, past2,
          regs3, frames3, store3, made3, dead3, lxmade3, lxdead3, obs3, rest3, past3

CONSTANTS Slots, CatchExc, AliasNames
HSlots == 1..4
HCatch == IOEnv.VH_CATCH = "1"
HAlias == IOEnv.VH_ALIAS = "1"

T1 == INSTANCE T_Exec WITH regs <- regs1, frames <- frames1, store <- store1, made <- made1, dead <- dead1,
                           lxmade <- lxmade1, lxdead <- lxdead1, obs <- obs1, rest <- rest1, past <- past1
T2 == INSTANCE T_Exec WITH regs <- regs2, frames <- frames2, store <- store2, made <- made2, dead <- dead2,
                           lxmade <- lxmade2, lxdead <- lxdead2, obs <- obs2, rest <- rest2, past <- past2
T3 == INSTANCE T_Exec WITH regs <- regs3, frames <- frames3, store <- store3, made <- made3, dead <- dead3,
                           lxmade <- lxmade3, lxdead <- lxdead3, obs <- obs3, rest <- rest3, past <- past3

thread1 == <<regs1, frames1, store1, made1, dead1, lxmade1, lxdead1, obs1, rest1, past1>>
thread2 == <<regs2, frames2, store2, made2, dead2, lxmade2, lxdead2, obs2, rest2, past2>>
thread3 == <<regs3, frames3, store3, made3, dead3, lxmade3, lxdead3, obs3, rest3, past3>>
states1 == <<regs1, frames1, store1, made1, dead1, lxmade1, lxdead1, obs1, past1>>
states2 == <<regs2, frames2, store2, made2, dead2, lxmade2, lxdead2, obs2, past2>>
states3 == <<regs3, frames3, store3, made3, dead3, lxmade3, lxdead3, obs3, past3>>
hvars == <<at, order, thread1, thread2, thread3>>

ReadGroups(b) == ndJsonDeserialize(IOEnv.VH_BLOCKS \o "/" \o ToString(b))

Init == /\ T1!Init0({1, 2}) /\ T2!Init0({1, 2}) /\ T3!Init0({1, 2})
        /\ rest1 = <<>> /\ rest2 = <<>> /\ rest3 = <<>> /\ past1 = <<>> /\ past2 = <<>> /\ past3 = <<>>
        /\ at = <<"root", 0, 0>> /\ order = <<>>

Open == /\ at[1] = "root"
        /\ \E b \in 1..atoi(IOEnv.VH_NBLOCKS) : at' = <<"block", b, 0>>
        /\ UNCHANGED <<order, thread1, thread2, thread3>>

Events(rec, t) == IF rec.how # "ok" THEN <<[e |-> rec.how]>> ELSE IF t <= Len(rec.th) THEN rec.th[t] ELSE <<>>
Start == /\ at[1] = "block"
         /\ \E recs \in {ReadGroups(at[2])} :
              \E i \in 1..Len(recs) :
                /\ at' = <<"history", at[2], i>>
                /\ order' = recs[i].order
                /\ rest1' = Events(recs[i], 1)
                /\ rest2' = Events(recs[i], 2)
                /\ rest3' = Events(recs[i], 3)
         /\ UNCHANGED <<states1, states2, states3>>

Follow == /\ at[1] = "history" /\ order # <<>>
          /\ order' = Tail(order)
          /\ \/ Head(order) = 1 /\ T1!Follow /\ UNCHANGED <<thread2, thread3>>
             \/ Head(order) = 2 /\ T2!Follow /\ UNCHANGED <<thread1, thread3>>
             \/ Head(order) = 3 /\ T3!Follow /\ UNCHANGED <<thread1, thread2>>

Done == /\ at[1] = "history" /\ order = <<>>
        /\ T1!Done /\ T2!Done /\ T3!Done
        /\ UNCHANGED hvars

Next == Open \/ Start \/ Follow \/ Done

OwnedOnce == T1!OwnedOnce /\ T2!OwnedOnce /\ T3!OwnedOnce
LexersOwnedOnce == T1!LexersOwnedOnce /\ T2!LexersOwnedOnce /\ T3!LexersOwnedOnce
Position == <<at, Len(order)>>
====
