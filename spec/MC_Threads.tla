---- MODULE MC_Threads ----
(***************************************************************************)
(* Two threads, each following a script on a registry of its own: every    *)
(* schedule of every pair of scripts.  The turns change between operations,*)
(* also while a command runs; what the code does by itself (entering a     *)
(* command, ending an execution) belongs to the operation before it.       *)
(* The schedules are replayed on real threads.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, IOUtils, TLC

CONSTANTS Slots, CatchExc, AliasNames
MSlots == {1, 2}
MCatch == IOEnv.VH_CATCH = "1"

VARIABLES pair,     \* the scripts
          pc1, pc2, \* operations done
          sched,    \* whose turns they were
          regs1, frames1, store1, made1, dead1, lxmade1, lxdead1, obs1,
          regs2, frames2, store2, made2, dead2, lxmade2, lxdead2, obs2,
          path, last, count     \* of MC_Exec, unused

E1 == INSTANCE MC_Exec WITH regs <- regs1, frames <- frames1, store <- store1, made <- made1, dead <- dead1, lxmade <- lxmade1, lxdead <- lxdead1, obs <- obs1
E2 == INSTANCE MC_Exec WITH regs <- regs2, frames <- frames2, store <- store2, made <- made2, dead <- dead2, lxmade <- lxmade2, lxdead <- lxdead2, obs <- obs2
thread1 == <<pc1, regs1, frames1, store1, made1, dead1, lxmade1, lxdead1, obs1>>
thread2 == <<pc2, regs2, frames2, store2, made2, dead2, lxmade2, lxdead2, obs2>>
unused == <<path, last, count>>

ab == <<97, 98>>
bA == <<98, 65>>
five == <<53>>
bad == <<120>>
hi == <<104, 105>>

\* operations; s: in the driver's notation (E1!Hex is the same for both)
Bd(n, l) == [a |-> "bind", n |-> n, l |-> l]
Ex(t) == [a |-> "exec", t |-> t]
Un(n) == [a |-> "unbind", n |-> n]
Gt(n) == [a |-> "get", n |-> n]
Cl == [a |-> "clear"]
Lx(k) == [a |-> "lexer", k |-> k]
Lg == [a |-> "log"]
Er == [a |-> "err"]
Rt == [a |-> "ret"]      \* return 7
Rv == [a |-> "retv"]     \* return nothing
Th == [a |-> "throw"]

Text(op) ==
    CASE op.a = "bind" -> "b 0 " \o E1!Hex(op.n) \o " p" \o E1!Notation(op.l)
      [] op.a = "exec" -> "x 0 " \o E1!Hex(op.t)
      [] op.a = "unbind" -> "u 0 " \o E1!Hex(op.n)
      [] op.a = "get" -> "g 0 " \o E1!Hex(op.n)
      [] op.a = "clear" -> "c 0"
      [] op.a = "lexer" -> "L 0 " \o op.k
      [] op.a = "log" -> "l line " \o E1!Hex(hi)
      [] op.a = "err" -> "e " \o E1!Hex(bad)
      [] op.a = "ret" -> "r 37"
      [] op.a = "retv" -> "r"
      [] op.a = "throw" -> "t std " \o E1!Hex(hi)

sp == <<32>>
Scripts0 == <<
    <<Bd(ab, <<"1L">>), Ex(ab \o sp \o five), Lg, Rt>>,
    <<Bd(ab, <<"6M", "1L">>), Ex(ab \o sp \o bad), Ex(ab), Th>>,
    <<Bd(ab, <<"v1">>), Ex(ab \o sp \o five), Ex(ab), Gt(ab)>>,
    <<Lx("whole"), Bd(ab, <<"0L">>), Ex(ab), Er, Rv>>,
    <<Bd(ab, <<"0L">>), Ex(ab), Ex(ab), Lg, Rv, Rv>>,
    <<Bd(ab, <<"10F0">>), Ex(ab \o sp \o five \o sp \o five), Un(ab), Ex(ab)>>,
    <<Bd(bA, <<"q7">>), Ex(bA \o sp \o five), Gt(bA), Cl>>,
    <<Ex(ab \o sp \o <<39>>), Lx("custom"), Bd(ab, <<"9L">>), Ex(ab \o <<95>> \o five \o sp \o five), Rt>> >>
deep == IOEnv.VH_DEEP = "1"
Scripts == [i \in 1..Len(Scripts0) |-> IF deep THEN Scripts0[i] \o <<Gt(bA), Ex(bA)>> ELSE Scripts0[i]]
P1 == Scripts[pair[1]]
P2 == Scripts[pair[2]]

RECURSIVE Program(_)
Program(ops) == Text(Head(ops)) \o (IF Len(ops) = 1 THEN "" ELSE ";" \o Program(Tail(ops)))

Init == /\ E1!Init0({1, 2}) /\ E2!Init0({1, 2})
        /\ pair \in {<<i, j>> \in (1..Len(Scripts)) \X (1..Len(Scripts)) : i <= j}
        /\ pc1 = 0 /\ pc2 = 0 /\ sched = ""
        /\ path = "" /\ last = "" /\ count = 0

Act1(op) ==
    CASE op.a = "bind" -> E1!Bind(1, op.n, E1!Overloads(op.l, E1!NextToken))
      [] op.a = "exec" -> E1!ExecText(1, op.t)
      [] op.a = "unbind" -> E1!Unbind(1, op.n)
      [] op.a = "get" -> E1!Get(1, op.n)
      [] op.a = "clear" -> E1!Clear(1)
      [] op.a = "lexer" -> E1!SetLexer(1, E1!NextLexer, op.k)
      [] op.a = "log" -> E1!Log("line", hi)
      [] op.a = "err" -> E1!Report(<<bad>>)
      [] op.a = "ret" -> E1!Return(<<55>>)
      [] op.a = "retv" -> E1!Return(<<>>)
      [] op.a = "throw" -> E1!Throw("std", hi)
Act2(op) ==
    CASE op.a = "bind" -> E2!Bind(1, op.n, E2!Overloads(op.l, E2!NextToken))
      [] op.a = "exec" -> E2!ExecText(1, op.t)
      [] op.a = "unbind" -> E2!Unbind(1, op.n)
      [] op.a = "get" -> E2!Get(1, op.n)
      [] op.a = "clear" -> E2!Clear(1)
      [] op.a = "lexer" -> E2!SetLexer(1, E2!NextLexer, op.k)
      [] op.a = "log" -> E2!Log("line", hi)
      [] op.a = "err" -> E2!Report(<<bad>>)
      [] op.a = "ret" -> E2!Return(<<55>>)
      [] op.a = "retv" -> E2!Return(<<>>)
      [] op.a = "throw" -> E2!Throw("std", hi)

Complete(p1, p2, s) == p1 = Len(P1) /\ p2 = Len(P2) => PrintT("PATH " \o s \o "#1|" \o Program(P1) \o "|" \o Program(P2))
Turn1 == /\ pc1 < Len(P1)
         /\ Act1(P1[pc1 + 1])
         /\ pc1' = pc1 + 1 /\ sched' = sched \o "0"
         /\ Complete(pc1 + 1, pc2, sched')
         /\ UNCHANGED <<thread2, pair, unused>>
Turn2 == /\ pc2 < Len(P2)
         /\ Act2(P2[pc2 + 1])
         /\ pc2' = pc2 + 1 /\ sched' = sched \o "1"
         /\ Complete(pc1, pc2 + 1, sched')
         /\ UNCHANGED <<thread1, pair, unused>>
Alone1 == (E1!Enter \/ E1!End) /\ UNCHANGED <<pc1, thread2, pair, sched, unused>>
Alone2 == (E2!Enter \/ E2!End) /\ UNCHANGED <<pc2, thread1, pair, sched, unused>>

Next == IF ~E1!InBody THEN Alone1 ELSE IF ~E2!InBody THEN Alone2 ELSE Turn1 \/ Turn2

OwnedOnce == E1!OwnedOnce /\ E2!OwnedOnce
ResultsSane == E1!ResultsSane /\ E2!ResultsSane
\* Every schedule ends with both scripts done, nothing running: no thread ever waits for another one.
Finishes == (~ENABLED Next) => pc1 = Len(P1) /\ pc2 = Len(P2) /\ frames1 = <<>> /\ frames2 = <<>>
\* What a thread's registries are depends on its own operations only: the same script, equally far, the same state.
Alike == pair[1] = pair[2] /\ pc1 = pc2 /\ E1!InBody /\ E2!InBody
            => regs1 = regs2 /\ frames1 = frames2 /\ store1 = store2 /\ made1 = made2 /\ dead1 = dead2
====
