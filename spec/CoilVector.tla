---- MODULE CoilVector ----
(***************************************************************************)
(* coil::Vector as a value-semantic sequence: several vectors, each a      *)
(* sequence of elements (shown as numbers) and the capacity its user has   *)
(* asked for.  Elements are owned by exactly one vector.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANT Slots
VARIABLE vecs
\* A vector: its elements, and the least capacity it must have.
None == [live |-> FALSE, items |-> <<>>, min |-> 0]
Vec(items, min) == [live |-> TRUE, items |-> items, min |-> min]
VInit == vecs = [s \in Slots |-> None]

Live(s) == vecs[s].live
Max(a, b) == IF a > b THEN a ELSE b
Items(s) == vecs[s].items
SetItems(s, items) == vecs' = [vecs EXCEPT ![s].items = items]

\* The element a default-constructed one is.
Default == 0

Make(s, n) == ~Live(s) /\ vecs' = [vecs EXCEPT ![s] = Vec(<<>>, n)]
From(s, vs) == ~Live(s) /\ vecs' = [vecs EXCEPT ![s] = Vec(vs, 0)]
CopyConstruct(d, s) == ~Live(d) /\ Live(s) /\ vecs' = [vecs EXCEPT ![d] = Vec(Items(s), 0)]
MoveConstruct(d, s) == ~Live(d) /\ Live(s) /\ vecs' = [vecs EXCEPT ![d] = vecs[s], ![s] = Vec(<<>>, 0)]
CopyAssign(d, s) == Live(d) /\ Live(s) /\ vecs' = [vecs EXCEPT ![d] = Vec(Items(s), 0)]
\* A vector that is assigned from either becomes empty or gets the destination's former contents.
MoveAssign(d, s, swap) ==
    /\ Live(d) /\ Live(s)
    /\ IF d = s THEN UNCHANGED vecs
       ELSE vecs' = [vecs EXCEPT ![d] = vecs[s], ![s] = IF swap THEN vecs[d] ELSE Vec(<<>>, 0)]
Push(s, v) == Live(s) /\ SetItems(s, Append(Items(s), v))
PushOwn(s, i) == Live(s) /\ i <= Len(Items(s)) /\ Push(s, Items(s)[i])
Pop(s) == Live(s) /\ Items(s) # <<>> /\ SetItems(s, SubSeq(Items(s), 1, Len(Items(s)) - 1))
Resize(s, n) == Live(s) /\ SetItems(s, [i \in 1..n |-> IF i <= Len(Items(s)) THEN Items(s)[i] ELSE Default])
Reserve(s, n) == Live(s) /\ vecs' = [vecs EXCEPT ![s].min = Max(@, n)]
Clear(s) == Live(s) /\ SetItems(s, <<>>)
Put(s, i, v) == Live(s) /\ i <= Len(Items(s)) /\ SetItems(s, [Items(s) EXCEPT ![i] = v])
Equal(a, b) == Live(a) /\ Live(b) /\ UNCHANGED vecs
Destroy(s) == Live(s) /\ vecs' = [vecs EXCEPT ![s] = None]

Same(a, b) == Items(a) = Items(b)
RECURSIVE CountOver(_)
CountOver(ss) == IF ss = {} THEN 0 ELSE LET s == CHOOSE x \in ss : TRUE IN Len(Items(s)) + CountOver(ss \ {s})
\* The number of elements alive.
Alive == CountOver(Slots) 
\* An operation that fails (a copy of an element, or an allocation, throws) leaves everything as it was.
Failed == UNCHANGED vecs
\* (When a vector fails to grow, it keeps the elements which were made already.)
FailedResize(s, n, made) == /\ Live(s) /\ made \in 0..Max(0, n - Len(Items(s)) - 1)
                            /\ SetItems(s, Items(s) \o [i \in 1..made |-> Default])
====
