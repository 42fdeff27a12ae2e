---- MODULE MC_Exec ----
(***************************************************************************)
(* CoilExec explored exhaustively over small alphabets, one model per      *)
(* property (IOEnv.VH_MODEL).  The variable `path` is the program that led *)
(* to the state, in the driver's notation; every program of the maximal    *)
(* length, and with it every transition explored, is handed to the driver, *)
(* which runs it on the real code; T_Exec then judges what happened.       *)
(***************************************************************************)
EXTENDS CoilExec, IOUtils

VARIABLES path, last, count
mvars == <<vars, path, last, count>>

HexDigit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
RECURSIVE HexOf(_)
HexOf(s) == IF s = <<>> THEN "" ELSE HexDigit[(Head(s) \div 16) + 1] \o HexDigit[(Head(s) % 16) + 1] \o HexOf(Tail(s))
Hex(s) == IF s = <<>> THEN "-" ELSE HexOf(s)

\* Names with the same djb2 hash: ab, bA.
ab == <<97, 98>>
bA == <<98, 65>>
cc == <<99, 99>>
five == <<53>>
bad == <<120>>
aa == <<97>>

Lambda(tag, ctx, ps, rt) == [tag |-> tag, tok |-> TRUE, k |-> "user", ps |-> ps, rt |-> rt, ctx |-> ctx, c |-> 0]
Static(tag, ctx, ps, rt) == [Lambda(tag, ctx, ps, rt) EXCEPT !.tok = FALSE]
Access(k, ps, rt, c) == [tag |-> 0, tok |-> FALSE, k |-> k, ps |-> ps, rt |-> rt, ctx |-> FALSE, c |-> c]
int == <<"int">>

\* What the driver makes of an overload's notation; t: the number of the next tracked callable.
Overload(s, t) ==
    CASE s = "0L" -> <<Lambda(t, TRUE, <<>>, <<"void">>)>>
      [] s = "1L" -> <<Lambda(t, TRUE, <<int>>, int)>>
      [] s = "1M" -> <<Lambda(t, TRUE, <<int>>, int)>>
      [] s = "6L" -> <<Lambda(t, FALSE, <<>>, int)>>
      [] s = "6M" -> <<Lambda(t, FALSE, <<>>, int)>>
      [] s = "9L" -> <<Lambda(t, FALSE, <<int, int>>, int)>>
      [] s = "1F0" -> <<Static(1004, TRUE, <<int>>, int)>>
      [] s = "1F1" -> <<Static(1005, TRUE, <<int>>, int)>>
      [] s = "2O0" -> <<Static(2016, FALSE, <<int>>, <<"void">>)>>
      [] s = "2C1" -> <<Static(2019, FALSE, <<int>>, <<"void">>)>>
      [] s = "10F0" -> <<Static(1040, TRUE, <<int, int, int>>, <<"void">>)>>
      [] s = "v1" -> <<Access("get", <<>>, int, 1), Access("set", <<int>>, int, 1)>>
      [] s = "v2" -> <<Access("get", <<>>, int, 2), Access("set", <<int>>, int, 2)>>
      [] s = "v5" -> <<Access("get", <<>>, int, 5), Access("roset", <<int>>, int, 5)>>
      [] s = "p10" -> <<Access("pget", <<>>, int, 10), Access("pset", <<int>>, int, 10)>>
      [] s = "r10" -> <<Access("pget", <<>>, int, 10), Access("proset", << <<"value">> >>, int, 10)>>
      [] s = "q7" -> <<Access("pget", <<>>, int, 7), Access("pset", <<int>>, int, 7)>>
      [] s = "q8" -> <<Access("pget", <<>>, int, 8), Access("pset", <<int>>, int, 8)>>
      [] s = "f7" -> <<Access("pget", <<>>, int, 7), Access("pset", <<int>>, int, 7)>>
      [] s = "Q8" -> <<Access("pget", <<>>, int, 8), Access("proset", <<int>>, int, 8)>>

RECURSIVE Overloads(_, _)
Overloads(ss, t) ==
    IF ss = <<>> THEN <<>>
    ELSE LET o == Overload(Head(ss), t)
         IN  o \o Overloads(Tail(ss), IF o[1].tok THEN t + 1 ELSE t)
RECURSIVE Notation(_)
Notation(ss) == IF ss = <<>> THEN "" ELSE " " \o Head(ss) \o Notation(Tail(ss))

\* Actions by letter; lists: overload lists; texts: texts and the registries' slots they are executed in;
\* len: number of operations; bodies: what a command does ("log", "err", "ret", "throw", ...); bound: number of bound overload lists.
Base == [acts |-> {}, regs |-> {1}, names |-> {ab, bA}, lists |-> {<<"0L">>}, apis |-> {"p"}, texts |-> {}, inputs |-> {},
         frames |-> 1, len |-> 5, tokens |-> 4, body |-> {}, lexers |-> {}, keys |-> {}, pokes |-> {}]

T(name, args) == name \o (IF args = <<>> THEN <<>> ELSE <<32>> \o Join(args, <<32>>))
deep == IOEnv.VH_DEEP = "1"
Deeper(m) == [m EXCEPT !.len = IF deep THEN @ + 1 ELSE @, !.tokens = IF deep THEN @ + 1 ELSE @]

Model ==
  LET p == IOEnv.VH_MODEL IN Deeper(
  CASE p = "C04" -> [Base EXCEPT !.acts = {"lexer", "exec", "bind", "mvassign", "mvctor", "delete", "new"}, !.regs = {1, 2, 3}, !.names = {ab},
                        !.lists = {<<"6L">>}, !.texts = {ab, <<97, 98, 32>>, <<91, 97>>, <<97, 98, 95>>}, !.lexers = {"default", "custom", "whole", "fail"}, !.len = 4]
    [] p = "C05" -> [Base EXCEPT !.acts = {"bind", "bindfail", "unbind", "null", "clear", "get", "exec"}, !.names = {ab, bA, cc}, !.lists = {<<"6L">>},
                        !.apis = {"p"}, !.texts = {ab, bA}, !.len = 6, !.tokens = 5]
    [] p = "C06" -> [Base EXCEPT !.acts = {"bind", "unbind", "get"}, !.apis = {"p", "a"},
                        !.lists = {<<"6L">>, <<"1F0", "10F0">>, <<"2C1", "1L">>, <<"v5">>, <<"p10">>, <<"r10">>, <<"Q8">>, <<>>}, !.len = 4]
    [] p = "C07" -> [Base EXCEPT !.acts = {"bind", "mvassign", "mvctor", "exec", "lexer", "delete", "new", "clear"}, !.regs = {1, 2, 3}, !.names = {ab, bA},
                        !.lists = {<<"6L">>}, !.texts = {ab}, !.lexers = {"whole"}, !.len = 5]
    [] p = "C08" -> [Base EXCEPT !.acts = {"bind", "bindfail", "drop", "unbind", "clear", "delete", "new", "mvassign", "exec"}, !.regs = {1, 2}, !.names = {ab},
                        !.lists = {<<"0L">>, <<"6M", "1L">>}, !.apis = {"p", "a"}, !.texts = {ab}, !.len = 5, !.tokens = 6]
    [] p = "C09" -> [Base EXCEPT !.acts = {"bind", "unbind", "clear", "get", "exec", "body"}, !.names = {ab, bA}, !.lists = {<<"0L">>}, !.texts = {ab, bA},
                        !.frames = 3, !.body = {"log"}, !.len = 6, !.tokens = 3]
    [] p = "C10" -> [Base EXCEPT !.acts = {"bind", "exec", "input"}, !.names = {ab},
                        !.lists = {<<"0L", "1L">>, <<"1L", "1M", "6L">>, <<"10F0", "0L", "9L">>, <<"9L">>, <<>>},
                        !.texts = {T(ab, [j \in 1..k |-> five]) : k \in 0..4} \cup {ab \o <<32, 97, 61, 53>>, ab \o <<32, 53, 32, 97, 61, 53>>}, !.len = 4]
    [] p = "C11" -> [Base EXCEPT !.acts = {"bind", "exec"}, !.names = {ab}, !.lists = {<<"1L", "9L", "10F0">>, <<"10F0", "9L">>},
                        !.texts = {T(ab, a) : a \in UNION {[1..k -> {five, bad, <<40, 53, 44, 53, 41>>}] : k \in 1..3}}, !.len = 2]
    [] p = "C12" -> [Base EXCEPT !.acts = {"bind", "exec"}, !.names = {ab},
                        !.lists = {<<"1L">>, <<"1M">>, <<"1F0">>, <<"1F1">>, <<"2O0">>, <<"2C1">>, <<"9L">>, <<"10F0">>},
                        !.texts = {T(ab, a) : a \in UNION {[1..k -> {five, <<55>>, <<45, 57>>}] : k \in 1..3}}, !.len = 2]
    [] p = "C13" -> [Base EXCEPT !.acts = {"bind", "exec", "body"}, !.names = {ab}, !.lists = {<<"1L">>, <<"1L", "0L">>}, !.texts = {ab, T(ab, <<five>>)},
                        !.body = {"log", "line", "linef", "err", "ask"}, !.frames = 2, !.len = 6, !.tokens = 2]
    [] p = "C14" -> [Base EXCEPT !.acts = {"bind", "exec", "body", "unbind"}, !.names = {ab}, !.lists = {<<"1L">>, <<"6M", "1L">>}, !.texts = {ab, T(ab, <<five>>)},
                        !.body = {"log", "err", "std", "derived", "int", "foreign"}, !.frames = 2, !.len = 6, !.tokens = 2]
    [] p = "C15" -> [Base EXCEPT !.acts = {"bind", "exec", "body"}, !.names = {ab}, !.lists = {<<"0L">>}, !.keys = {aa, <<98>>},
                        !.texts = {T(ab, a) : a \in UNION {[1..k -> {<<97, 61, 53>>, <<97, 61, 120>>, <<98, 61, 55>>}] : k \in 0..2}},
                        !.body = {"get", "req", "opt", "def", "all"}, !.len = 4, !.tokens = 1]
    [] p = "C16" -> [Base EXCEPT !.acts = {"bind", "exec", "poke"}, !.names = {ab, bA}, !.lists = {<<"v1">>, <<"v2">>, <<"v5">>},
                        !.texts = {ab, T(bA, <<five>>), T(ab, <<five>>), T(ab, <<bad>>), T(ab, <<five, five>>)}, !.pokes = {1, 2}, !.len = 5]
    [] p = "C17" -> [Base EXCEPT !.acts = {"bind", "exec", "poke"}, !.names = {ab}, !.lists = {<<"p10">>, <<"r10">>, <<"q7">>, <<"q8">>, <<"f7">>, <<"Q8">>},
                        !.texts = {ab, T(ab, <<five>>), T(ab, << <<49, 51>> >>), T(ab, <<bad>>), T(ab, <<five, five>>)}, !.pokes = {7, 10}, !.len = 5])

M == Model
Can(a) == a \in M.acts
NextToken == Cardinality(made) + 1
NextLexer == Cardinality(lxmade) + 1
R(r) == HexDigit[r]      \* slots are numbered from 0 in the notation

Init == Init0({1, 2}) /\ path = "" /\ last = "" /\ count = 0

Op(s) == /\ count < M.len
         /\ count' = count + 1
         /\ last' = s
         /\ path' = IF path = "" THEN s ELSE path \o ";" \o s
         /\ PrintT("PATH " \o path')

Registry ==
    \/ \E r \in M.regs, nm \in M.names, l \in M.lists, a \in M.apis :
         /\ Can("bind")
         /\ LET ds == Overloads(l, NextToken) IN
              /\ Cardinality(made \cup Tokens(ds)) <= M.tokens
              /\ Bind(r, nm, ds)
              /\ Op("b " \o R(r) \o " " \o Hex(nm) \o " " \o a \o Notation(l))
    \/ \E r \in M.regs, nm \in M.names, l \in M.lists, a \in M.apis :
         /\ Can("bindfail")
         /\ LET ds == Overloads(l, NextToken) IN
              /\ Cardinality(made \cup Tokens(ds)) <= M.tokens
              /\ BindFails(r, nm, ds, Tokens(ds))
              /\ Op("A 1;b " \o R(r) \o " " \o Hex(nm) \o " " \o a \o Notation(l))
    \/ \E l \in M.lists : /\ Can("drop")
                          /\ LET ds == Overloads(l, NextToken) IN Cardinality(made \cup Tokens(ds)) <= M.tokens /\ Drop(ds)
                          /\ Op("d" \o Notation(l))
    \/ \E r \in M.regs, nm \in M.names :
         \/ Can("unbind") /\ Unbind(r, nm) /\ Op("u " \o R(r) \o " " \o Hex(nm))
         \/ Can("null") /\ Unbind(r, nm) /\ Op("U " \o R(r) \o " " \o Hex(nm))
         \/ Can("get") /\ Get(r, nm) /\ Op("g " \o R(r) \o " " \o Hex(nm))
    \/ \E r \in M.regs :
         \/ Can("clear") /\ Clear(r) /\ Op("c " \o R(r))
         \/ Can("new") /\ NewRegistry(r) /\ Op("N " \o R(r))
         \/ Can("delete") /\ DeleteRegistry(r) /\ Op("D " \o R(r))
         \/ \E k \in M.lexers : Can("lexer") /\ NextLexer <= 3 /\ SetLexer(r, NextLexer, k) /\ Op("L " \o R(r) \o " " \o k)
    \/ \E d, s \in M.regs :
         \/ Can("mvctor") /\ MoveConstruct(d, s) /\ Op("m " \o R(d) \o " " \o R(s))
         \/ Can("mvassign") /\ MoveAssign(d, s, {}) /\ Op("M " \o R(d) \o " " \o R(s) \o " " \o Hex(ab))
    \/ \E c \in M.pokes : Can("poke") /\ Poke(c, <<57>>) /\ Op("s " \o ToString(c) \o " 39")

Executing ==
    \E r \in M.regs :
      \/ \E t \in M.texts : Can("exec") /\ Len(frames) < M.frames /\ ExecText(r, t) /\ Op("x " \o R(r) \o " " \o Hex(t))
      \/ \E nm \in M.names, k \in 0..3 :
           Can("input") /\ Len(frames) < M.frames
             /\ ExecInput(r, [name |-> nm, args |-> [i \in 1..k |-> <<five>>], named |-> <<>>])
             /\ Op("i " \o R(r) \o " " \o Hex(nm) \o " " \o (CASE k = 0 -> "_" [] k = 1 -> "35" [] k = 2 -> "35/35" [] k = 3 -> "35/35/35") \o " _")

Can2(b) == b \in M.body
hi == <<104, 105>>
InBodies ==
    \/ \E k \in {"log", "line", "logf", "linef"} \cap M.body : Log(k, hi) /\ Op("l " \o k \o " " \o Hex(hi))
    \/ Can2("err") /\ Report(<<bad>>) /\ Op("e " \o Hex(bad))
    \/ Can2("ask") /\ HasErrors /\ Op("q")
    \/ \E k \in M.keys :
         \/ Can2("get") /\ NamedGet(k, int) /\ Op("n " \o Hex(k) \o " int")
         \/ Can2("req") /\ NamedReport(k, int, TRUE, <<>>) /\ Op("k " \o Hex(k) \o " int 1 _")
         \/ Can2("opt") /\ NamedReport(k, int, FALSE, <<>>) /\ Op("k " \o Hex(k) \o " int 0 _")
         \/ Can2("def") /\ NamedReport(k, int, FALSE, <<five>>) /\ Op("k " \o Hex(k) \o " int 0 35")
    \/ Can2("all") /\ NamedAll /\ Op("E")
    \/ Body /\ Return(IF Top.d.rt = <<"void">> THEN <<>> ELSE <<55>>) /\ Op(IF Top.d.rt = <<"void">> THEN "r" ELSE "r 37")
    \/ \E k \in {"std", "derived", "int", "foreign"} \cap M.body :
         Throw(k, IF k = "int" THEN <<50>> ELSE hi) /\ Op("t " \o k \o " " \o Hex(hi))

\* The code takes these steps by itself.
Silent == (Enter \/ End) /\ UNCHANGED <<path, last, count>>

Next == Registry \/ Executing \/ InBodies \/ Silent
Spec == Init /\ [][Next]_mvars

View == <<regs, frames, store, made, dead, lxmade, lxdead, last, count>>
IsolationM == [][ /\ \A i \in 1..Len(frames) : i < Len(frames) /\ i < Len(frames') => frames'[i] = frames[i]
                  /\ Len(frames') = Len(frames) /\ Running => frames'[Len(frames)].in = Top.in /\ frames'[Len(frames)].r = Top.r
                  /\ dead \subseteq dead' /\ lxdead \subseteq lxdead' ]_mvars

MSlots == M.regs \cup {1, 2}
MCatch == IOEnv.VH_CATCH = "1"
MAlias == FALSE
====
