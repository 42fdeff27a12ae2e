---- MODULE T_Holder ----
(***************************************************************************)
(* Recorded histories of coil::Optional and coil::Expected, followed by    *)
(* CoilHolder.                                                             *)
(***************************************************************************)
EXTENDS CoilHolder, Histories
tvars == <<holders, hvars>>
TSlots == 1..4
IsExpected == IOEnv.VH_EXPECTED = "1"

\* What the dump of a holder shows, if it makes sense.
Read(dump) ==
    IF Len(dump) # 1 \/ Len(dump[1].has) # 1 THEN None
    ELSE IF dump[1].has[1] THEN (IF Len(dump[1].v) = 1 THEN Holding("value", dump[1].v[1]) ELSE None)
    ELSE IF ~IsExpected THEN Empty
    ELSE IF Len(dump[1].v) = 1 THEN Holding("error", dump[1].v[1]) ELSE None
Shown(x, dump) == IF ~holders'[x].live THEN dump = <<>> ELSE Read(dump) = holders'[x]

LeftSeen(ev) == Read(ev.all[ev.s])
\* (only an Optional can become empty)
Kept(h) == IsExpected => h.k # "empty"

Act(ev) ==
    CASE ev.e = "none"  -> Make(ev.s, Empty) /\ ~IsExpected
      [] ev.e = "val"   -> Make(ev.s, Holding("value", ev.v))
      [] ev.e = "err"   -> Make(ev.s, Holding("error", ev.v)) /\ ev.kept
      [] ev.e = "cctor" -> CopyConstruct(ev.d, ev.s)
      [] ev.e = "mctor" -> MoveConstruct(ev.d, ev.s, LeftSeen(ev)) /\ Kept(LeftSeen(ev))
      [] ev.e \in {"cas", "across"} -> CopyAssign(ev.d, ev.s) /\ ev.self
      [] ev.e = "mas"   -> MoveAssign(ev.d, ev.s, LeftSeen(ev)) /\ ev.self /\ Kept(LeftSeen(ev))
      [] ev.e \in {"set", "setv"} -> Assign(ev.s, Holding("value", ev.v))
      [] ev.e = "sete"  -> Assign(ev.s, Holding("error", ev.v)) /\ ev.kept
      [] ev.e = "reset" -> Assign(ev.s, Empty)
      [] ev.e = "put"   -> Put(ev.s, ev.v)
      [] ev.e = "take"  -> Take(ev.s, LeftSeen(ev)) /\ ev.got = holders[ev.s].v /\ Kept(LeftSeen(ev))
      [] ev.e = "eq"    -> Compare(ev.d) /\ Compare(ev.s) /\ Agreed(ev.eq, Contents(ev.d) = Contents(ev.s))
      [] ev.e = "eqv"   -> Compare(ev.s) /\ Agreed(ev.eq, Contents(ev.s) = <<"value", ev.v>>)
      [] ev.e = "eqe"   -> Compare(ev.s) /\ Agreed(ev.eq, Contents(ev.s) = <<"error", ev.v>>)
      [] ev.e = "drop"  -> Destroy(ev.s)
      [] ev.e = "threw" -> ev.burnt /\ Failed
      [] OTHER          -> FALSE     \* the library crashed or hangs

Seen(ev) ==
    /\ \A s \in Slots : Shown(s, ev.all[s])
    /\ ev.bad = 0
    /\ ev.alive = ev.per * Contained'

Init == HoInit /\ HInit
Open == HOpen /\ UNCHANGED holders
Start == HStart /\ UNCHANGED holders
Follow == HEvent /\ Act(Head(rest)) /\ Seen(Head(rest)) /\ HConsume
Done == HEnd /\ Contained = 0 /\ UNCHANGED tvars
Next == Open \/ Start \/ Follow \/ Done
====
