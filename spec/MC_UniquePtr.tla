---- MODULE MC_UniquePtr ----
(***************************************************************************)
(* CoilUniquePtr explored exhaustively: two pointers to the derived class  *)
(* and two to its base, over all ownerships (objects are interchangeable). *)
(***************************************************************************)
EXTENDS CoilUniquePtr, Paths
VARIABLES made, dead
mvars == <<ptrs, gone, made, dead, pvars>>
MSlots == 1..4

Init == PInit /\ made = 0 /\ dead = {} /\ PathInit
Fresh == made + 1

OnOne(s) ==
    \/ \E h \in {"new", "make"} : Make(s, Fresh) /\ made' = Fresh /\ Op("make " \o S(s) \o " " \o h)
    \/ Make(s, Nothing) /\ UNCHANGED made /\ Op("null " \o S(s))
    \/ \E h \in {"conv", "make"} : Give(s, Fresh) /\ made' = Fresh /\ Op("set " \o S(s) \o " " \o h)
    \/ \E h \in {"empty", "nullptr", "conv"} : Give(s, Nothing) /\ UNCHANGED made /\ Op("unset " \o S(s) \o " " \o h)
    \/ Destroy(s) /\ UNCHANGED made /\ Op("drop " \o S(s))
OnTwo(d, s) ==
    /\ UNCHANGED made
    /\ \/ MoveConstruct(d, s) /\ Op("mctor " \o S(d) \o " " \o S(s))
       \/ MoveAssign(d, s, TRUE) /\ Op("mas " \o S(d) \o " " \o S(s))
       \/ IsDerived(s) /\ ~IsDerived(d) /\ Convert(d, s) /\ Op("conv " \o S(d) \o " " \o S(s))
       \/ IsDerived(s) /\ ~IsDerived(d) /\ ConvertAssign(d, s) /\ Op("cas " \o S(d) \o " " \o S(s))

Next == ((\E s \in Slots : OnOne(s)) \/ (\E d, s \in Slots : OnTwo(d, s))) /\ dead' = dead \cup gone'
State(s) == IF ~Live(s) THEN "none" ELSE IF Owned(s) = Nothing THEN "null" ELSE "owner"
View == [s \in Slots |-> State(s)]

\* Every object made is either owned (once) or destroyed (once, as the action property says), never both.
AllAccounted == 1..made = dead \cup { Owned(s) : s \in Owners } /\ dead \cap { Owned(s) : s \in Owners } = {}
DestroyedOnce == [][gone' \cap dead = {}]_mvars
====
