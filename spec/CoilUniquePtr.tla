---- MODULE CoilUniquePtr ----
(***************************************************************************)
(* coil::UniquePtr: which pointer owns which object.  Slots 1, 2 point to  *)
(* the derived class, the others to its base.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Slots
VARIABLES ptrs,   \* slot -> <<>> (no pointer) or <<object>>, object 0 being none
          gone    \* the objects destroyed by the last action
PInit == ptrs = [s \in Slots |-> <<>>] /\ gone = {}

Nothing == 0
Live(x) == ptrs[x] # <<>>
Owned(x) == ptrs[x][1]
IsDerived(x) == x \in {1, 2}
Objects(set) == set \ {Nothing}

Make(x, o) == ~Live(x) /\ ptrs' = [ptrs EXCEPT ![x] = <<o>>] /\ gone' = {}
Give(x, o) == Live(x) /\ ptrs' = [ptrs EXCEPT ![x] = <<o>>] /\ gone' = Objects({Owned(x)})
Convert(d, s) == ~Live(d) /\ Live(s) /\ ptrs' = [ptrs EXCEPT ![d] = ptrs[s], ![s] = <<Nothing>>] /\ gone' = {}
MoveConstruct(d, s) == IsDerived(d) = IsDerived(s) /\ Convert(d, s)
\* The destination's former object is destroyed, or goes to the source.
MoveAssign(d, s, swap) ==
    /\ Live(d) /\ Live(s) /\ IsDerived(d) = IsDerived(s)
    /\ IF d = s THEN UNCHANGED ptrs /\ gone' = {}
       ELSE /\ ptrs' = [ptrs EXCEPT ![d] = ptrs[s], ![s] = IF swap THEN ptrs[d] ELSE <<Nothing>>]
            /\ gone' = IF swap THEN {} ELSE Objects({Owned(d)})
ConvertAssign(d, s) == Live(d) /\ Live(s) /\ ptrs' = [ptrs EXCEPT ![d] = ptrs[s], ![s] = <<Nothing>>] /\ gone' = Objects({Owned(d)})
Destroy(x) == Live(x) /\ ptrs' = [ptrs EXCEPT ![x] = <<>>] /\ gone' = Objects({Owned(x)})

Owners == { x \in Slots : Live(x) /\ Owned(x) # Nothing }
OwnedOnce == \A a, b \in Owners : a # b => Owned(a) # Owned(b)
GoneForGood == \A a \in Owners : Owned(a) \notin gone
====
