---- MODULE CoilMap ----
(***************************************************************************)
(* coil::UnorderedMap as a map: several maps, each a function from keys to *)
(* values.  Buckets, chains and the order of iteration are not visible.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Slots
VARIABLE maps
None == [live |-> FALSE, m |-> <<>>]
Map(m) == [live |-> TRUE, m |-> m]
MInit == maps = [s \in Slots |-> None]

Live(x) == maps[x].live
M(x) == maps[x].m
Set(x, m) == maps' = [maps EXCEPT ![x] = Map(m)]
Without(m, k) == [j \in DOMAIN m \ {k} |-> m[j]]

Make(x) == ~Live(x) /\ Set(x, <<>>)
Insert(x, k, v) == Live(x) /\ Set(x, (k :> v) @@ M(x))
Erase(x, k) == Live(x) /\ Set(x, Without(M(x), k))
Clear(x) == Live(x) /\ Set(x, <<>>)
Mutate(x, k, v) == Live(x) /\ Set(x, IF k \in DOMAIN M(x) THEN [M(x) EXCEPT ![k] = v] ELSE M(x))
CopyConstruct(d, s) == ~Live(d) /\ Live(s) /\ Set(d, M(s))
MoveConstruct(d, s) == ~Live(d) /\ Live(s) /\ maps' = [maps EXCEPT ![d] = maps[s], ![s] = Map(<<>>)]
CopyAssign(d, s) == Live(d) /\ Live(s) /\ Set(d, M(s))
\* A map that is assigned from either becomes empty or gets the destination's former contents.
MoveAssign(d, s, swap) ==
    /\ Live(d) /\ Live(s)
    /\ IF d = s THEN UNCHANGED maps
       ELSE maps' = [maps EXCEPT ![d] = maps[s], ![s] = IF swap THEN maps[d] ELSE Map(<<>>)]
Destroy(x) == Live(x) /\ maps' = [maps EXCEPT ![x] = None]

RECURSIVE CountOver(_)
CountOver(ss) == IF ss = {} THEN 0 ELSE LET s == CHOOSE x \in ss : TRUE IN Cardinality(DOMAIN M(s)) + CountOver(ss \ {s})
Entries == CountOver(Slots) 
\* An operation that fails (a copy of an element, or an allocation, throws) leaves everything as it was.
Failed == UNCHANGED maps
====
