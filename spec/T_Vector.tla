---- MODULE T_Vector ----
(***************************************************************************)
(* Recorded histories of coil::Vector, followed by CoilVector.             *)
(***************************************************************************)
EXTENDS CoilVector, Histories
tvars == <<vecs, hvars>>
TSlots == 1..4

Act(ev) ==
    CASE ev.e = "make"    -> Make(ev.s, ev.n)
      [] ev.e = "from"    -> From(ev.s, ev.vs)
      [] ev.e = "cctor"   -> CopyConstruct(ev.d, ev.s)
      [] ev.e = "mctor"   -> MoveConstruct(ev.d, ev.s)
      [] ev.e = "cas"     -> CopyAssign(ev.d, ev.s) /\ ev.self
      [] ev.e = "mas"     -> MoveAssign(ev.d, ev.s, ev.d # ev.s /\ ev.all[ev.s] # <<>> /\ ev.all[ev.s][1].size # 0) /\ ev.self
      [] ev.e = "push"    -> Push(ev.s, ev.v)
      [] ev.e = "pushown" -> PushOwn(ev.s, ev.i + 1)
      [] ev.e = "pop"     -> Pop(ev.s)
      [] ev.e = "resize"  -> Resize(ev.s, ev.n)
      [] ev.e = "reserve" -> Reserve(ev.s, ev.n)
      [] ev.e = "clear"   -> Clear(ev.s)
      [] ev.e = "put"     -> Put(ev.s, ev.i + 1, ev.v)
      [] ev.e = "eq"      -> Equal(ev.d, ev.s) /\ ("eq" \in DOMAIN ev => (ev.eq <=> Same(ev.d, ev.s)))
      [] ev.e = "drop"    -> Destroy(ev.s)
      [] ev.e = "threw"   -> /\ ev.burnt
                             /\ IF ev.op = "resize" THEN FailedResize(ev.d, ev.n, Len(ev.all[ev.d][1].ways[1]) - Len(Items(ev.d))) ELSE Failed
      [] OTHER            -> FALSE     \* the library crashed or hangs

Shown(v, dump) ==
    IF ~v.live THEN dump = <<>>
    ELSE /\ Len(dump) = 1
         /\ Agreed(dump[1].ways, v.items)
         /\ dump[1].size = Len(v.items)
         /\ dump[1].empty <=> v.items = <<>>
         /\ dump[1].cap >= Len(v.items)
         /\ dump[1].cap >= v.min

Seen(ev) ==
    /\ \A s \in Slots : Shown(vecs'[s], ev.all[s])
    /\ ev.bad = 0
    /\ ev.alive = ev.per * Alive'

Init == VInit /\ HInit
Open == HOpen /\ UNCHANGED vecs
Start == HStart /\ UNCHANGED vecs
Follow == HEvent /\ Act(Head(rest)) /\ Seen(Head(rest)) /\ HConsume
Done == HEnd /\ Alive = 0 /\ UNCHANGED tvars
Next == Open \/ Start \/ Follow \/ Done
====
