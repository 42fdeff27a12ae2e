---- MODULE T_UniquePtr ----
(***************************************************************************)
(* Recorded histories of coil::UniquePtr, followed by CoilUniquePtr.       *)
(***************************************************************************)
EXTENDS CoilUniquePtr, Histories
tvars == <<ptrs, gone, hvars>>
TSlots == 1..4

Act(ev) ==
    CASE ev.e = "make"  -> Make(ev.s, ev.id)
      [] ev.e = "null"  -> Make(ev.s, Nothing)
      [] ev.e = "set"   -> Give(ev.s, ev.id)
      [] ev.e = "unset" -> Give(ev.s, Nothing)
      [] ev.e = "mctor" -> MoveConstruct(ev.d, ev.s)
      [] ev.e = "conv"  -> Convert(ev.d, ev.s)
      [] ev.e = "cas"   -> ConvertAssign(ev.d, ev.s)
      [] ev.e = "mas"   -> MoveAssign(ev.d, ev.s, ev.d # ev.s /\ ev.all[ev.s] # <<>> /\ ev.all[ev.s][1] # <<0>>)
      [] ev.e = "drop"  -> Destroy(ev.s)
      [] OTHER          -> FALSE     \* the library crashed or hangs

Seen(ev) ==
    \* every way of reading a pointer shows the object it owns
    /\ \A s \in Slots : IF ptrs'[s] = <<>> THEN ev.all[s] = <<>> ELSE ev.all[s] = <<ptrs'[s]>>
    /\ Len(ev.gone) = Cardinality(gone') /\ { ev.gone[i] : i \in 1..Len(ev.gone) } = gone'
    /\ ev.bad = 0
    /\ ev.alive = Cardinality({ s \in Slots : ptrs'[s] # <<>> /\ ptrs'[s] # <<Nothing>> })

Init == PInit /\ HInit
Open == HOpen /\ UNCHANGED <<ptrs, gone>>
Start == HStart /\ UNCHANGED <<ptrs, gone>>
Follow == HEvent /\ Act(Head(rest)) /\ Seen(Head(rest)) /\ HConsume
Done == HEnd /\ Owners = {} /\ UNCHANGED tvars
Next == Open \/ Start \/ Follow \/ Done
====
