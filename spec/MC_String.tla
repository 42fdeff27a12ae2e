---- MODULE MC_String ----
(***************************************************************************)
(* CoilString explored exhaustively over a small alphabet with the NUL     *)
(* byte in it, together with a model of the storage's capacity (caps).     *)
(***************************************************************************)
EXTENDS CoilString, Paths
VARIABLE caps
mvars == <<strs, caps, pvars>>

MSlots == {1, 2}
MaxLen == IF deep THEN 3 ELSE 2
Room == MaxLen + 1
Texts == {<<>>, <<97>>, <<0>>, <<97, 0>>}
Pieces == {<<>>, <<97>>, <<0>>}

Max(a, b) == IF a > b THEN a ELSE b
Cap(s, n) == caps' = [caps EXCEPT ![s] = n]
AtLeast(s, n) == Cap(s, Max(caps[s], n))
Fits(n) == n <= MaxLen

Init == SInit /\ caps = [s \in Slots |-> 0] /\ PathInit

OnOne(s) ==
    \/ \E t \in Texts, h \in {"c", "none", "view", "len"} :
         Make(s, t) /\ (h = "none" => t = <<>>) /\ Cap(s, Len(t) + 1) /\ Op("make " \o S(s) \o " " \o Hex(t) \o " " \o h)
    \/ \E t \in Pieces, h \in {"c", "char", "str", "view", "len"} :
         /\ Fits(Len(Text(s)) + Len(t)) /\ AppendText(s, t) /\ AtLeast(s, Len(Text(s)) + Len(t) + 1)
         /\ (h = "char" => Len(t) = 1) /\ (h = "c" => 0 \notin {t[i] : i \in 1..Len(t)})
         /\ Op("app " \o S(s) \o " " \o Hex(t) \o " " \o h)
    \/ \E n \in {0, Room} : Reserve(s, n) /\ AtLeast(s, n + 1) /\ Op("reserve " \o S(s) \o " " \o N(n))
    \/ \E n \in 0..MaxLen : Resize(s, n, 97) /\ AtLeast(s, n + 1) /\ Op("resize " \o S(s) \o " " \o N(n) \o " 61")
    \/ \E h \in {"data", "back"} : LET n == Len(Text(s)) IN n > 0 /\ Put(s, n, 97) /\ UNCHANGED caps /\ Op("put " \o S(s) \o " " \o N(n - 1) \o " 61 " \o h)
    \/ \E t \in Texts : Compare(s) /\ UNCHANGED caps /\ Op("cmpt " \o S(s) \o " " \o Hex(t))
    \/ \E off \in 0..MaxLen, len \in 0..MaxLen : off + len <= Len(Text(s)) /\ Compare(s) /\ UNCHANGED caps /\ Op("sub " \o S(s) \o " " \o N(off) \o " " \o N(len))
    \/ Destroy(s) /\ Cap(s, 0) /\ Op("drop " \o S(s))

OnTwo(d, s) ==
    \/ CopyConstruct(d, s) /\ Cap(d, caps[s]) /\ Op("cctor " \o S(d) \o " " \o S(s))
    \/ MoveConstruct(d, s) /\ caps' = [caps EXCEPT ![d] = caps[s], ![s] = 0] /\ Op("mctor " \o S(d) \o " " \o S(s))
    \/ CopyAssign(d, s) /\ Cap(d, caps[s]) /\ Op("cas " \o S(d) \o " " \o S(s))
    \/ MoveAssign(d, s, TRUE) /\ caps' = [caps EXCEPT ![d] = caps[s], ![s] = caps[d]] /\ Op("mas " \o S(d) \o " " \o S(s))
    \/ \E t \in {<<>>, <<97>>, <<0>>}, h \in {"c", "char", "str", "view"} :
         /\ Live(s) /\ Fits(Len(Text(s)) + Len(t)) /\ Concat(d, s, t) /\ Cap(d, Max(caps[s], Len(Text(s)) + Len(t) + 1))
         /\ (h = "char" => Len(t) = 1) /\ (h = "c" => 0 \notin {t[i] : i \in 1..Len(t)})
         /\ Op("cat " \o S(d) \o " " \o S(s) \o " " \o Hex(t) \o " " \o h)
    \/ \E off \in 0..MaxLen, len \in 0..MaxLen, h \in {"str", "view", "c", "len"} :
         /\ Live(d) /\ Live(s) /\ Fits(Len(Text(d)) + len) /\ AppendPart(d, s, off, len) /\ AtLeast(d, Len(Text(d)) + len + 1)
         /\ Op("apps " \o S(d) \o " " \o S(s) \o " " \o N(off) \o " " \o N(len) \o " " \o h)
    \/ Compare(d) /\ Compare(s) /\ UNCHANGED caps /\ Op("cmp " \o S(d) \o " " \o S(s))

\* An allocation fails.
Fault(k) == "arm allocs " \o N(k) \o ";"
Failing ==
    /\ Failed /\ UNCHANGED caps
    /\ \/ \E d, s \in Slots :
            /\ Live(s)
            /\ \/ ~Live(d) /\ \E k \in {1, 2} : Op(Fault(k) \o "cctor " \o S(d) \o " " \o S(s))     \* (the first makes the slot)
               \/ Live(d) /\ Op(Fault(1) \o "cas " \o S(d) \o " " \o S(s))
       \/ \E s \in Slots :
            \/ \E h \in {"char", "view", "len"} : Live(s) /\ Fits(Len(Text(s)) + 1) /\ caps[s] < Len(Text(s)) + 2 /\ Op(Fault(1) \o "app " \o S(s) \o " 61 " \o h)
            \/ \E h \in {"view", "len"} : Live(s) /\ Text(s) # <<>> /\ Fits(2 * Len(Text(s))) /\ caps[s] < 2 * Len(Text(s)) + 1
                                         /\ Op(Fault(1) \o "apps " \o S(s) \o " " \o S(s) \o " 0 " \o N(Len(Text(s))) \o " " \o h)
            \/ Live(s) /\ caps[s] < Room + 1 /\ Op(Fault(1) \o "reserve " \o S(s) \o " " \o N(Room))
            \/ \E n \in 1..MaxLen : Live(s) /\ caps[s] < n + 1 /\ Op(Fault(1) \o "resize " \o S(s) \o " " \o N(n) \o " 61")

Next == (\E s \in Slots : OnOne(s)) \/ (\E d, s \in Slots : OnTwo(d, s)) \/ Failing
View == <<strs, caps>>
Bounded == \A s \in Slots : Len(Text(s)) <= MaxLen /\ caps[s] <= Room + 1
TerminatorFits == \A s \in Slots : Live(s) /\ Text(s) # <<>> => caps[s] >= Len(Text(s)) + 1
====
