---- MODULE MC_Holder ----
(***************************************************************************)
(* CoilHolder explored exhaustively: three Optionals, or three Expecteds.  *)
(***************************************************************************)
EXTENDS CoilHolder, Paths
mvars == <<holders, pvars>>
MSlots == {1, 2, 3}
IsExpected == IOEnv.VH_EXPECTED = "1"
Values == {1, 2}
After(h) == IF h.k = "empty" THEN h ELSE [h EXCEPT !.v = Moved]
V(h) == Holding("value", h)
E(h) == Holding("error", h)

Init == HoInit /\ PathInit

OnOne(s) ==
    \/ ~IsExpected /\ Make(s, Empty) /\ Op("none " \o S(s))
    \/ \E v \in Values : \/ \E h \in {"copy", "move"} : Make(s, V(v)) /\ Op("val " \o S(s) \o " " \o N(v) \o " " \o h)
                         \/ \E h \in {"conv", "lval", "cconv", "lconv", "lwrap", "cwrap", "rwrap", "direct"} : IsExpected /\ Make(s, E(v)) /\ Op("err " \o S(s) \o " " \o N(v) \o " " \o h)
                         \/ \E h \in {"copy", "move", "own"} : ~IsExpected /\ Assign(s, V(v)) /\ Op("set " \o S(s) \o " " \o N(v) \o " " \o h)
                         \/ IsExpected /\ Assign(s, V(v)) /\ Op("setv " \o S(s) \o " " \o N(v))
                         \/ \E h \in {"conv", "lval", "lwrap", "direct"} : IsExpected /\ Assign(s, E(v)) /\ Op("sete " \o S(s) \o " " \o N(v) \o " " \o h)
                         \/ \E h \in {"star", "arrow", "value"} : Put(s, v) /\ Op("put " \o S(s) \o " " \o N(v) \o " " \o h)
                         \/ Compare(s) /\ Op("eqv " \o S(s) \o " " \o N(v))
                         \/ IsExpected /\ Compare(s) /\ Op("eqe " \o S(s) \o " " \o N(v))
    \/ ~IsExpected /\ Assign(s, Empty) /\ Op("reset " \o S(s))
    \/ \E h \in {"star", "value"} : IsExpected /\ Take(s, After(holders[s])) /\ Op("take " \o S(s) \o " 0 " \o h)
    \/ Destroy(s) /\ Op("drop " \o S(s))

OnTwo(d, s) ==
    \/ CopyConstruct(d, s) /\ Op("cctor " \o S(d) \o " " \o S(s))
    \/ MoveConstruct(d, s, After(holders[s])) /\ Op("mctor " \o S(d) \o " " \o S(s))
    \/ CopyAssign(d, s) /\ Op("cas " \o S(d) \o " " \o S(s))
    \/ MoveAssign(d, s, After(holders[s])) /\ Op("mas " \o S(d) \o " " \o S(s))
    \/ Compare(d) /\ Compare(s) /\ Op("eq " \o S(d) \o " " \o S(s))

\* A copy of the contents fails.
Fault == "arm copies 1;"
Full(s) == Live(s) /\ holders[s].k # "empty"
Failing ==
    /\ Failed
    /\ \/ \E d, s \in Slots :
            /\ Full(s)
            /\ \/ ~Live(d) /\ Op(Fault \o "cctor " \o S(d) \o " " \o S(s))
               \/ Live(d) /\ Op(Fault \o "cas " \o S(d) \o " " \o S(s))
       \/ ~IsExpected /\ \E s \in Slots : \/ ~Live(s) /\ Op(Fault \o "val " \o S(s) \o " 1 copy")
                                          \/ Live(s) /\ Op(Fault \o "set " \o S(s) \o " 1 copy")
                                          \/ Full(s) /\ Op(Fault \o "put " \o S(s) \o " 1 star")
       \/ IsExpected /\ \E s \in Slots, k \in {1, 2, 3}, h \in {"lval", "lwrap"} :
            Op("arm copies " \o N(k) \o ";" \o (IF Live(s) THEN "sete " ELSE "err ") \o S(s) \o " 1 " \o h)

Next == (\E s \in Slots : OnOne(s)) \/ (\E d, s \in Slots : OnTwo(d, s)) \/ Failing
View == holders
Typed == \A s \in Slots : holders[s].k \in {"empty", "value"} \cup (IF IsExpected THEN {"error"} ELSE {}) \cup {"empty"}
Kinds == IsExpected => \A s \in Slots : holders[s].live => holders[s].k # "empty"
====
