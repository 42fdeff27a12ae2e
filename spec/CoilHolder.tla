---- MODULE CoilHolder ----
(***************************************************************************)
(* coil::Optional and coil::Expected: holders of nothing, a value or an    *)
(* error.  An object whose contents were moved out shows Moved.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Slots
VARIABLE holders
Moved == -1
None == [live |-> FALSE, k |-> "empty", v |-> 0]
Holding(k, v) == [live |-> TRUE, k |-> k, v |-> v]      \* k: "empty", "value", "error"
Empty == Holding("empty", 0)
HoInit == holders = [s \in Slots |-> None]

Live(x) == holders[x].live
Set(x, h) == holders' = [holders EXCEPT ![x] = h]
Contents(x) == <<holders[x].k, holders[x].v>>

\* What is left of a holder whose contents were moved: they show it, they are still there, or (an Optional) they are gone.
Left(h) == IF h.k = "empty" THEN {h} ELSE {h, [h EXCEPT !.v = Moved]} \cup (IF h.k = "value" THEN {Empty} ELSE {})

Make(x, h) == ~Live(x) /\ Set(x, h)
CopyConstruct(d, s) == ~Live(d) /\ Live(s) /\ Set(d, holders[s])
MoveConstruct(d, s, left) == ~Live(d) /\ Live(s) /\ left \in Left(holders[s]) /\ holders' = [holders EXCEPT ![d] = holders[s], ![s] = left]
CopyAssign(d, s) == Live(d) /\ Live(s) /\ Set(d, holders[s])
MoveAssign(d, s, left) ==
    /\ Live(d) /\ Live(s)
    /\ IF d = s THEN UNCHANGED holders
       ELSE left \in Left(holders[s]) /\ holders' = [holders EXCEPT ![d] = holders[s], ![s] = left]
Assign(x, h) == Live(x) /\ Set(x, h)
Put(x, v) == Live(x) /\ holders[x].k # "empty" /\ Set(x, [holders[x] EXCEPT !.v = v])
Take(x, left) == Live(x) /\ left \in Left(holders[x]) /\ Set(x, left)
Compare(x) == Live(x) /\ UNCHANGED holders
Destroy(x) == Live(x) /\ Set(x, None)

\* The number of contained objects.
Contained == Cardinality({ x \in Slots : holders[x].live /\ holders[x].k # "empty" }) 
\* An operation that fails (a copy of an element, or an allocation, throws) leaves everything as it was.
Failed == UNCHANGED holders
====
