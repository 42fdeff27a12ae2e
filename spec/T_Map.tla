---- MODULE T_Map ----
(***************************************************************************)
(* Recorded histories of coil::UnorderedMap, followed by CoilMap.          *)
(***************************************************************************)
EXTENDS CoilMap, Histories
tvars == <<maps, hvars>>
TSlots == 1..4

Act(ev) ==
    CASE ev.e = "make"   -> Make(ev.s)
      [] ev.e = "ins"    -> Insert(ev.s, ev.k, ev.v) /\ ev.ret = <<ev.k, ev.v>>
      [] ev.e = "insown" -> Insert(ev.s, ev.k, ev.v) /\ ev.k \in DOMAIN M(ev.s) /\ M(ev.s)[ev.k] = ev.v
      [] ev.e = "erase"  -> Erase(ev.s, ev.k)
      [] ev.e = "clear"  -> Clear(ev.s)
      [] ev.e = "mut"    -> Mutate(ev.s, ev.k, ev.v) /\ (ev.done <=> ev.k \in DOMAIN M(ev.s))
      [] ev.e = "cctor"  -> CopyConstruct(ev.d, ev.s)
      [] ev.e = "mctor"  -> MoveConstruct(ev.d, ev.s)
      [] ev.e = "cas"    -> CopyAssign(ev.d, ev.s)
      [] ev.e = "mas"    -> MoveAssign(ev.d, ev.s, ev.all[ev.s] # <<>> /\ ev.all[ev.s][1].size # 0)
      [] ev.e = "drop"   -> Destroy(ev.s)
      [] ev.e = "threw"  -> ev.burnt /\ Failed
      [] OTHER           -> FALSE     \* the library crashed or hangs

Pairs(m) == { <<k, m[k]>> : k \in DOMAIN m }
SetOf(s) == { s[i] : i \in 1..Len(s) }
\* Every entry once, in any order.
Lists(s, m) == Len(s) = Cardinality(DOMAIN m) /\ SetOf(s) = Pairs(m)

Shown(v, dump) ==
    IF ~v.live THEN dump = <<>>
    ELSE /\ Len(dump) = 1
         /\ Len(dump[1].all) = 1 /\ Lists(dump[1].all[1], v.m)
         /\ Len(dump[1].found) = 1 /\ Lists(dump[1].found[1], v.m)
         /\ dump[1].size = Cardinality(DOMAIN v.m)

Seen(ev) ==
    /\ \A s \in Slots : Shown(maps'[s], ev.all[s])
    /\ ev.bad = 0
    /\ ev.alive = ev.per * Entries'

Init == MInit /\ HInit
Open == HOpen /\ UNCHANGED maps
Start == HStart /\ UNCHANGED maps
Follow == HEvent /\ Act(Head(rest)) /\ Seen(Head(rest)) /\ HConsume
Done == HEnd /\ Entries = 0 /\ UNCHANGED tvars
Next == Open \/ Start \/ Follow \/ Done
====
