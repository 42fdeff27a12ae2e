---- MODULE T_Exec ----
(***************************************************************************)
(* Recorded histories of registries and executions, followed by CoilExec.  *)
(* Every recorded event must be the effect of an action of CoilExec with   *)
(* the parameters recorded in it, and everything the code showed must be   *)
(* what that action shows.  A history that cannot be followed to its end   *)
(* deadlocks.  Histories are stored in block files, read in parallel.      *)
(***************************************************************************)
EXTENDS CoilExec, Json, IOUtils

VARIABLES at,     \* <<"root", 0, 0>>, <<"block", b, 0>>, <<"history", b, i>>
          rest,   \* the events of the history not yet followed
          past    \* the last results given: results are values, nothing changes them
tvars == <<vars, at, rest, past>>

TSlots == 1..4
TCatch == IOEnv.VH_CATCH = "1"
TAlias == IOEnv.VH_ALIAS = "1"

ReadBlock(b) == ndJsonDeserialize(IOEnv.VH_BLOCKS \o "/" \o ToString(b))
NBlocks == atoi(IOEnv.VH_NBLOCKS)

SetOf(s) == { s[i] : i \in 1..Len(s) }
Once(s) == Cardinality(SetOf(s)) = Len(s)

Init == Init0({1, 2}) /\ at = <<"root", 0, 0>> /\ rest = <<>> /\ past = <<>>

Open ==
    /\ at[1] = "root"
    /\ \E b \in 1..NBlocks : at' = <<"block", b, 0>>
    /\ UNCHANGED <<vars, rest, past>>

Start ==
    /\ at[1] = "block"
    /\ \E recs \in {ReadBlock(at[2])} :
         \E i \in 1..Len(recs) : /\ at' = <<"history", at[2], i>>
                                 /\ rest' = IF recs[i].how = "ok" THEN recs[i].ev ELSE <<[e |-> recs[i].how]>>
    /\ UNCHANGED <<vars, past>>

\* The action an event claims to be.
Act(ev) ==
    CASE ev.e = "bind"     -> Bind(ev.r, ev.n, ev.fs)
      [] ev.e = "bindfail" -> BindFails(ev.r, ev.n, ev.fs, SetOf(ev.born))
      [] ev.e = "drop"     -> Drop(ev.fs)
      [] ev.e = "unbind"   -> Unbind(ev.r, ev.n)
      [] ev.e = "clear"    -> Clear(ev.r)
      [] ev.e = "get"      -> Get(ev.r, ev.n)
      [] ev.e = "new"      -> NewRegistry(ev.r)
      [] ev.e = "delete"   -> DeleteRegistry(ev.r)
      [] ev.e = "mvctor"   -> MoveConstruct(ev.d, ev.s)
      [] ev.e = "mvassign" -> LET old == DOMAIN regs[ev.d].cmds
                                  left == SetOf(ev.found)
                              IN  /\ left \in {{}, SetOf(ev.tried) \cap old}
                                  /\ MoveAssign(ev.d, ev.s, IF left = {} THEN {} ELSE old)
      [] ev.e = "setlexer" -> SetLexer(ev.r, ev.id, ev.k)
      [] ev.e = "poke"     -> Poke(ev.c, IF Cells[ev.c].t = <<"double">> THEN Unshow(Cells[ev.c].t, ev.v) ELSE ev.v)
      [] ev.e = "exec"     -> IF ev.mode = "text" THEN ExecText(ev.r, ev.s) ELSE ExecInput(ev.r, ev.in)
      [] ev.e = "enter"    -> Enter
      [] ev.e = "log"      -> Log(ev.k, ev.s)
      [] ev.e = "report"   -> Report(ev.errs)
      [] ev.e = "haserr"   -> HasErrors
      [] ev.e = "nget"     -> NamedGet(ev.k, ev.t)
      [] ev.e = "nrep"     -> NamedReport(ev.k, ev.t, ev.req, ev.def)
      [] ev.e = "nall"     -> NamedAll
      [] ev.e = "ret"      -> Return(ev.v)
      [] ev.e = "throw"    -> Throw(ev.k, ev.s)
      [] ev.e = "end"      -> End
      [] OTHER             -> FALSE      \* the library crashed or hangs

StoreShown(st) == [c \in 1..NCells |-> Show(Cells[c].t, st[c])]

\* What the event shows is what the action shows.
Seen1(ev) ==
    /\ Once(ev.dead) /\ SetOf(ev.dead) = obs'.died
    /\ Once(ev.lxdead) /\ SetOf(ev.lxdead) = obs'.lxdied
    \* callables are moved only into the registry, while they are bound
    /\ SetOf(ev.mv) \subseteq IF ev.e \in {"bind", "bindfail", "drop"} THEN Tokens(ev.fs) ELSE {}
    /\ CASE ev.e \in {"bind", "bindfail", "get"} -> ev.md = obs'.md
         [] ev.e = "mvassign" -> ev.usable
         [] ev.e = "poke"     -> ev.store = StoreShown(store')
         [] ev.e = "enter"    -> ev.tag = obs'.tag /\ ev.args = obs'.args
         [] ev.e = "haserr"   -> ev.v = obs'.v
         [] ev.e = "nget"     -> ev.out = obs'.out
         [] ev.e = "nrep"     -> ev.out = obs'.out
         [] ev.e = "nall"     -> ev.all = obs'.all /\ ev.size = obs'.size
         [] ev.e = "ret"      -> ev.args = obs'.args
         [] ev.e = "end"      -> /\ \/ ev.x = obs'.x /\ ev.exc = obs'.exc
                                    \/ obs'.may # <<>> /\ ev.x = obs'.may[1].x /\ ev.exc = obs'.may[1].exc
                                 /\ ev.sets = obs'.sets
                                 /\ CASE obs'.g = 0 -> ev.g = 0 [] obs'.g = 1 -> ev.g >= 1 [] OTHER -> TRUE
                                 /\ ev.store = StoreShown(store')
         [] OTHER -> TRUE

Kept(x) == [errs |-> x.errs, out |-> x.out, ret |-> x.ret]
Recalled(ev) ==
    /\ ev.dead = <<>> /\ ev.mv = <<>> /\ ev.lxdead = <<>>
    /\ ev.i <= Len(past) /\ Kept(ev.x) = past[Len(past) + 1 - ev.i]
    /\ UNCHANGED <<vars, past>>

Follow ==
    /\ at[1] = "history" /\ rest # <<>>
    /\ IF Head(rest).e = "recall" THEN Recalled(Head(rest))
       ELSE /\ Act(Head(rest)) /\ Seen1(Head(rest))
            /\ past' = IF Head(rest).e # "end" THEN past
                       ELSE LET p == Append(past, Kept(Head(rest).x)) IN IF Len(p) > 4 THEN Tail(p) ELSE p
    /\ rest' = Tail(rest)
    /\ UNCHANGED at

\* Followed to the end: all registries are gone by then, and with them everything they owned.
Done ==
    /\ at[1] = "history" /\ rest = <<>>
    /\ frames = <<>> /\ made = dead /\ lxmade = lxdead
    /\ UNCHANGED tvars

Next == Open \/ Start \/ Follow \/ Done
Spec == Init /\ [][Next]_tvars

Position == <<at, Len(rest)>>
====
