---- MODULE CoilString ----
(***************************************************************************)
(* coil::String as a value-semantic byte string, with the views of it.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Slots
VARIABLE strs
None == [live |-> FALSE, s |-> <<>>]
Str(s) == [live |-> TRUE, s |-> s]
SInit == strs = [s \in Slots |-> None]

Live(x) == strs[x].live
Text(x) == strs[x].s
Set(x, t) == strs' = [strs EXCEPT ![x] = Str(t)]
Part(t, off, len) == SubSeq(t, off + 1, off + len)

Make(x, t) == ~Live(x) /\ Set(x, t)
CopyConstruct(d, s) == ~Live(d) /\ Live(s) /\ Set(d, Text(s))
MoveConstruct(d, s) == ~Live(d) /\ Live(s) /\ strs' = [strs EXCEPT ![d] = strs[s], ![s] = Str(<<>>)]
CopyAssign(d, s) == Live(d) /\ Live(s) /\ Set(d, Text(s))
\* A string that is assigned from either becomes empty or gets the destination's former contents.
MoveAssign(d, s, swap) ==
    /\ Live(d) /\ Live(s)
    /\ IF d = s THEN UNCHANGED strs
       ELSE strs' = [strs EXCEPT ![d] = strs[s], ![s] = IF swap THEN strs[d] ELSE Str(<<>>)]
AppendText(x, t) == Live(x) /\ Set(x, Text(x) \o t)
AppendPart(d, s, off, len) == Live(d) /\ Live(s) /\ off + len <= Len(Text(s)) /\ Set(d, Text(d) \o Part(Text(s), off, len))
Concat(d, s, t) == ~Live(d) /\ Live(s) /\ Set(d, Text(s) \o t)
Reserve(x, n) == Live(x) /\ UNCHANGED strs
\* Growing appends bytes the user writes afterwards: c.
Resize(x, n, c) == Live(x) /\ Set(x, [i \in 1..n |-> IF i <= Len(Text(x)) THEN Text(x)[i] ELSE c])
Put(x, i, c) == Live(x) /\ i <= Len(Text(x)) /\ Set(x, [Text(x) EXCEPT ![i] = c])
Compare(x) == Live(x) /\ UNCHANGED strs
Destroy(x) == Live(x) /\ strs' = [strs EXCEPT ![x] = None]

\* What a reader of C strings sees.
UpToNul(t) == LET z == { i \in 1..Len(t) : t[i] = 0 } IN IF z = {} THEN t ELSE SubSeq(t, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1) 
\* An operation that fails (a copy of an element, or an allocation, throws) leaves everything as it was.
Failed == UNCHANGED strs
====
