---- MODULE MC_Vector ----
(***************************************************************************)
(* CoilVector explored exhaustively, together with a model of how the      *)
(* storage grows (caps), so that every operation is tried with full and    *)
(* with roomy storage.                                                     *)
(***************************************************************************)
EXTENDS CoilVector, Paths
VARIABLE caps     \* slot -> capacity of the storage
mvars == <<vecs, caps, pvars>>

MSlots == {1, 2}
MaxLen == IF deep THEN 5 ELSE 3
MaxCap == IF deep THEN 7 ELSE 4
\* (elements made by different steps are different)
Fresh == count + 1

Grown(s, n) == IF n > caps[s] THEN Max(n, (3 * Len(Items(s))) \div 2) ELSE caps[s]
Cap(s, n) == caps' = [caps EXCEPT ![s] = n]
Small(s) == Len(Items(s)) < MaxLen

Init == VInit /\ caps = [s \in Slots |-> 0] /\ PathInit

OnOne(s) ==
    \/ \E n \in {0, 1, MaxLen} : Make(s, n) /\ Cap(s, n) /\ Op("make " \o S(s) \o " " \o N(n))
    \/ From(s, <<>>) /\ Cap(s, 0) /\ Op("from " \o S(s) \o " -")
    \/ From(s, <<Fresh, 77>>) /\ Cap(s, 2) /\ Op("from " \o S(s) \o " " \o N(Fresh) \o ",77")
    \/ Small(s) /\ Push(s, Fresh) /\ Cap(s, Grown(s, Len(Items(s)) + 1)) /\ Op("push " \o S(s) \o " " \o N(Fresh))
    \/ \E i \in {1, Len(Items(s))} \ {0} : Small(s) /\ PushOwn(s, i) /\ Cap(s, Grown(s, Len(Items(s)) + 1)) /\ Op("pushown " \o S(s) \o " " \o N(i - 1))
    \/ Pop(s) /\ UNCHANGED caps /\ Op("pop " \o S(s))
    \/ \E n \in 0..MaxLen : Resize(s, n) /\ Cap(s, Max(n, caps[s])) /\ Op("resize " \o S(s) \o " " \o N(n))
    \/ \E n \in {1, MaxLen, MaxCap} : Reserve(s, n) /\ Cap(s, Max(n, caps[s])) /\ Op("reserve " \o S(s) \o " " \o N(n))
    \/ Clear(s) /\ UNCHANGED caps /\ Op("clear " \o S(s))
    \/ \E h \in {"it", "idx", "data"}, i \in 1..Len(Items(s)) : Put(s, i, Fresh) /\ UNCHANGED caps /\ Op("put " \o S(s) \o " " \o N(i - 1) \o " " \o N(Fresh) \o " " \o h)
    \/ \E h \in {"front", "back"} : LET i == IF h = "front" THEN 1 ELSE Len(Items(s)) IN
         Items(s) # <<>> /\ Put(s, i, Fresh) /\ UNCHANGED caps /\ Op("put " \o S(s) \o " " \o N(i - 1) \o " " \o N(Fresh) \o " " \o h)
    \/ Destroy(s) /\ Cap(s, 0) /\ Op("drop " \o S(s))

OnTwo(d, s) ==
    \/ CopyConstruct(d, s) /\ Cap(d, Len(Items(s))) /\ Op("cctor " \o S(d) \o " " \o S(s))
    \/ MoveConstruct(d, s) /\ caps' = [caps EXCEPT ![d] = caps[s], ![s] = 0] /\ Op("mctor " \o S(d) \o " " \o S(s))
    \/ CopyAssign(d, s) /\ Cap(d, Len(Items(s))) /\ Op("cas " \o S(d) \o " " \o S(s))
    \/ MoveAssign(d, s, TRUE) /\ caps' = [caps EXCEPT ![d] = caps[s], ![s] = caps[d]] /\ Op("mas " \o S(d) \o " " \o S(s))
    \/ Equal(d, s) /\ UNCHANGED caps /\ Op("eq " \o S(d) \o " " \o S(s))

\* The k-th copy of an element, or the allocation, fails.
Fault(f, k) == "arm " \o f \o " " \o N(k) \o ";"
Failing ==
    \/ \E d, s \in Slots, k \in 1..MaxLen :
         /\ Live(s) /\ k <= Len(Items(s)) /\ Failed /\ UNCHANGED caps
         /\ \/ ~Live(d) /\ Op(Fault("copies", k) \o "cctor " \o S(d) \o " " \o S(s))
            \/ Live(d) /\ Op(Fault("copies", k) \o "cas " \o S(d) \o " " \o S(s))
    \/ \E d, s \in Slots :
         /\ Live(s) /\ Items(s) # <<>> /\ Failed /\ UNCHANGED caps
         /\ \/ ~Live(d) /\ Op(Fault("allocs", 2) \o "cctor " \o S(d) \o " " \o S(s))      \* (the first makes the slot)
            \/ Live(d) /\ Op(Fault("allocs", 1) \o "cas " \o S(d) \o " " \o S(s))
    \/ \E s \in Slots :
         /\ Failed /\ UNCHANGED caps
         /\ \/ Live(s) /\ Small(s) /\ caps[s] = Len(Items(s)) /\ Op(Fault("allocs", 1) \o "push " \o S(s) \o " " \o N(Fresh))
            \/ Live(s) /\ Small(s) /\ Items(s) # <<>> /\ Op(Fault("copies", 1) \o "pushown " \o S(s) \o " 0")
            \/ \E n \in {MaxLen, MaxCap} : Live(s) /\ n > caps[s] /\ Op(Fault("allocs", 1) \o "reserve " \o S(s) \o " " \o N(n))
            \/ ~Live(s) /\ Op(Fault("allocs", 2) \o "make " \o S(s) \o " " \o N(MaxLen))
    \/ \E s \in Slots, n \in 1..MaxLen, k \in 1..MaxLen :
         /\ Live(s) /\ k <= n - Len(Items(s)) /\ FailedResize(s, n, k - 1) /\ Cap(s, Max(n, caps[s]))
         /\ Op(Fault("copies", k) \o "resize " \o S(s) \o " " \o N(n))

Next == (\E s \in Slots : OnOne(s)) \/ (\E d, s \in Slots : OnTwo(d, s)) \/ Failing
View == <<[s \in Slots |-> <<Live(s), Len(Items(s)), vecs[s].min>>], caps>>

\* The storage model keeps what the specification promises.
RoomEnough == \A s \in Slots : caps[s] >= Len(Items(s)) /\ caps[s] >= vecs[s].min
Bounded == \A s \in Slots : Len(Items(s)) <= MaxLen /\ caps[s] <= MaxCap + 2
====
