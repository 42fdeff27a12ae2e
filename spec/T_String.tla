---- MODULE T_String ----
(***************************************************************************)
(* Recorded histories of coil::String, followed by CoilString.             *)
(***************************************************************************)
EXTENDS CoilString, Histories
tvars == <<strs, hvars>>
TSlots == 1..4

Act(ev) ==
    CASE ev.e = "make"    -> Make(ev.s, ev.t)
      [] ev.e = "cctor"   -> CopyConstruct(ev.d, ev.s)
      [] ev.e = "mctor"   -> MoveConstruct(ev.d, ev.s)
      [] ev.e = "cas"     -> CopyAssign(ev.d, ev.s)
      [] ev.e = "mas"     -> MoveAssign(ev.d, ev.s, ev.all[ev.s] # <<>> /\ ev.all[ev.s][1].len # <<0>>)
      [] ev.e = "app"     -> AppendText(ev.s, ev.t)
      [] ev.e = "cat"     -> Concat(ev.d, ev.s, ev.t)
      [] ev.e = "apps"    -> AppendPart(ev.d, ev.s, ev.off, ev.len)
      [] ev.e = "reserve" -> Reserve(ev.s, ev.n)
      [] ev.e = "resize"  -> Resize(ev.s, ev.n, ev.c)
      [] ev.e = "put"     -> Put(ev.s, ev.i + 1, ev.c)
      [] ev.e = "cmp"     -> Compare(ev.d) /\ Compare(ev.s) /\ Agreed(ev.eq, Text(ev.d) = Text(ev.s))
      [] ev.e = "cmpt"    -> Compare(ev.s) /\ Agreed(ev.eq, Text(ev.s) = ev.t)
      [] ev.e = "sub"     -> Compare(ev.s) /\ Agreed(ev.sub, Part(Text(ev.s), ev.off, ev.len))
      [] ev.e = "drop"    -> Destroy(ev.s)
      [] ev.e = "threw"   -> ev.burnt /\ Failed
      [] OTHER            -> FALSE     \* the library crashed or hangs

Shown(v, dump) ==
    IF ~v.live THEN dump = <<>>
    ELSE /\ Len(dump) = 1
         /\ Agreed(dump[1].ways, v.s)
         /\ Agreed(dump[1].len, Len(v.s))
         /\ Agreed(dump[1].empty, v.s = <<>>)
         /\ dump[1].z = UpToNul(v.s)
         /\ dump[1].term = 0
         /\ Len(dump[1].hash) = 1      \* a string and its view hash alike

Seen(ev) ==
    /\ \A s \in Slots : Shown(strs'[s], ev.all[s])
    /\ \A a, b \in Slots : strs'[a].live /\ strs'[b].live /\ strs'[a].s = strs'[b].s => ev.all[a][1].hash = ev.all[b][1].hash

Init == SInit /\ HInit
Open == HOpen /\ UNCHANGED strs
Start == HStart /\ UNCHANGED strs
Follow == HEvent /\ Act(Head(rest)) /\ Seen(Head(rest)) /\ HConsume
Done == HEnd /\ UNCHANGED tvars
Next == Open \/ Start \/ Follow \/ Done
====
