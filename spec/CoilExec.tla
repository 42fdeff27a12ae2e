---- MODULE CoilExec ----
(***************************************************************************)
(* Registries of commands, their execution, and what running commands may  *)
(* do.                                                                     *)
(*                                                                         *)
(* The state: registries (slots), each a map from names to the overloads   *)
(* last bound there, and its lexer; the stack of running executions; the   *)
(* variables and objects that commands are bound to; and which owned       *)
(* callables and lexers were ever made and destroyed.                      *)
(*                                                                         *)
(* Every action leaves in `obs` what an observer of the implementation     *)
(* sees of it.  MC_Exec explores the actions exhaustively with small       *)
(* parameters, T_Exec follows recorded executions of the code.             *)
(***************************************************************************)
EXTENDS CoilConv, CoilLexer, FiniteSetsExt, TLC

CONSTANTS Slots,       \* registry slots
          CatchExc,    \* is exception catching enabled?
          AliasNames   \* are integer aliases used in type names?

(***************************************************************************)
(* Overloads: [tag, tok, k, ps, rt, ctx, c]                                *)
(*   tag   which callable this is; tok: does it own a tracked object?      *)
(*   k     "user" (its body is a sequence of actions), or an accessor:     *)
(*         "get", "set", "pget", "pset" (variable / property), "roset",    *)
(*         "proset" (read-only), "xget", "xset" (accessors that are left   *)
(*         by an exception: at the values 15 and 14)                       *)
(*   ps    parameter types (the context not counted), rt: result type,     *)
(*   ctx   does it take a context?   c: the cell of an accessor            *)
(***************************************************************************)

\* The cells that variables and properties are bound to.
Cells == << [t |-> <<"int">>,            z |-> <<48>>],     \* 1, 2: variables of the same type
            [t |-> <<"int">>,            z |-> <<48>>],
            [t |-> <<"string">>,         z |-> <<>>],       \* 3
            [t |-> <<"vec", "int">>,     z |-> <<>>],       \* 4
            [t |-> <<"int">>,            z |-> <<55>>],     \* 5: a const variable, 7
            [t |-> <<"color">>,          z |-> ColorNames[1]], \* 6
            [t |-> <<"int">>,            z |-> <<48>>],     \* 7, 8: the number of objects A and B
            [t |-> <<"int">>,            z |-> <<48>>],
            [t |-> <<"string">>,         z |-> <<>>],       \* 9: the text of object A
            [t |-> <<"int">>,            z |-> <<48>>],     \* 10: a property that refuses 13
            [t |-> <<"bool">>,           z |-> tFalse],     \* 11
            [t |-> <<"opt", "int">>,     z |-> <<>>],       \* 12
            [t |-> <<"double">>,         z |-> [neg |-> FALSE, d |-> <<>>, x |-> 0]],  \* 13
            [t |-> <<"point">>,          z |-> << <<48>>, <<48>> >>],               \* 14
            [t |-> <<"vec", "string">>,  z |-> <<>>],       \* 15: different values may have the same text
            [t |-> <<"opt", "string">>,  z |-> <<>>],       \* 16: likewise
            [t |-> <<"stdstr">>,         z |-> <<>>],       \* 17
            [t |-> <<"llong">>,          z |-> <<48>>],     \* 18
            [t |-> <<"bomb">>,           z |-> <<>>] >>     \* 19
NCells == Len(Cells)

\* What a cell holds after a value was written to it.
Written(c, old, new) == IF c = 10 /\ new = <<49, 51>> THEN old ELSE new

VARIABLES regs,     \* slot -> [live, cmds, lx]
          frames,   \* running executions, innermost last
          store,    \* cell -> value
          made,     \* tracked callables ever made
          dead,     \* tracked callables destroyed
          lxmade, lxdead, \* the same for lexers
          obs       \* what was observable of the last action
vars == <<regs, frames, store, made, dead, lxmade, lxdead, obs>>

NoLexer == [id |-> 0, k |-> "default"]   \* the built-in one
DeadReg == [live |-> FALSE, cmds |-> <<>>, lx |-> NoLexer]
NewReg  == [live |-> TRUE, cmds |-> <<>>, lx |-> NoLexer]

Init0(slots) ==
    /\ regs = [s \in Slots |-> IF s \in slots THEN NewReg ELSE DeadReg]
    /\ frames = <<>>
    /\ store = [c \in 1..NCells |-> Cells[c].z]
    /\ made = {} /\ dead = {} /\ lxmade = {} /\ lxdead = {}
    /\ obs = [e |-> "init"]

Top == frames[Len(frames)]
Running == frames # <<>>
InBody == Running => Top.fate = "body"     \* the program or a command's body is in control
Busy(r) == \E i \in 1..Len(frames) : frames[i].r = r

SetTop(f) == frames' = [frames EXCEPT ![Len(frames)] = f]

Tokens(ds) == { ds[i].tag : i \in { j \in 1..Len(ds) : ds[j].tok } }
BoundTokens(cmds) == UNION { Tokens(cmds[n]) : n \in DOMAIN cmds }
LexIds(lx) == IF lx.id = 0 THEN {} ELSE {lx.id}

\* What an observer sees die during an action.
Dying(toks, lxs) == /\ dead' = dead \cup toks
                    /\ lxdead' = lxdead \cup lxs

(***************************************************************************)
(* Metadata.                                                               *)
(***************************************************************************)
MetaOf(d) == [ar |-> Len(d.ps), ps |-> [i \in 1..Len(d.ps) |-> NameOf(AliasNames, d.ps[i])], rt |-> NameOf(AliasNames, d.rt)]
Meta(n, ds) == [n |-> n, fs |-> [i \in 1..Len(ds) |-> MetaOf(ds[i])]]

(***************************************************************************)
(* Changing registries.                                                    *)
(***************************************************************************)
NoObs == [e |-> "", died |-> {}, lxdied |-> {}]
Seen(e, toks, lxs) == [NoObs EXCEPT !.e = e, !.died = toks, !.lxdied = lxs]

Bound(r, n) == n \in DOMAIN regs[r].cmds
At(r, n) == IF Bound(r, n) THEN regs[r].cmds[n] ELSE <<>>

Bind(r, n, ds) ==
    LET old == Tokens(At(r, n)) IN
    /\ InBody /\ regs[r].live
    /\ regs' = [regs EXCEPT ![r].cmds = (n :> ds) @@ @]
    /\ made' = made \cup Tokens(ds)
    /\ Dying(old, {})
    /\ obs' = Seen("bind", old, {}) @@ [md |-> Meta(n, ds)]
    /\ UNCHANGED <<frames, store, lxmade>>

\* Memory runs out while something is bound: the registry is as before, and the callables made (born) are gone.
BindFails(r, n, ds, born) ==
    /\ InBody /\ regs[r].live /\ born \subseteq Tokens(ds)
    /\ made' = made \cup born
    /\ Dying(born, {})
    /\ obs' = Seen("bindfail", born, {}) @@ [md |-> IF Bound(r, n) THEN <<Meta(n, regs[r].cmds[n])>> ELSE <<>>]
    /\ UNCHANGED <<regs, frames, store, lxmade>>

\* Callables packed into an overload list which is never bound.
Drop(ds) ==
    /\ InBody
    /\ made' = made \cup Tokens(ds)
    /\ Dying(Tokens(ds), {})
    /\ obs' = Seen("drop", Tokens(ds), {})
    /\ UNCHANGED <<regs, frames, store, lxmade>>

Unbind(r, n) ==
    LET old == Tokens(At(r, n)) IN
    /\ InBody /\ regs[r].live
    /\ regs' = [regs EXCEPT ![r].cmds = [m \in DOMAIN @ \ {n} |-> @[m]]]
    /\ Dying(old, {})
    /\ obs' = Seen("unbind", old, {})
    /\ UNCHANGED <<frames, store, made, lxmade>>

Clear(r) ==
    LET old == BoundTokens(regs[r].cmds) IN
    /\ InBody /\ regs[r].live
    /\ regs' = [regs EXCEPT ![r].cmds = <<>>]
    /\ Dying(old, {})
    /\ obs' = Seen("clear", old, {})
    /\ UNCHANGED <<frames, store, made, lxmade>>

Get(r, n) ==
    /\ InBody /\ regs[r].live
    /\ obs' = Seen("get", {}, {}) @@ [md |-> IF Bound(r, n) THEN <<Meta(n, regs[r].cmds[n])>> ELSE <<>>]
    /\ UNCHANGED <<regs, frames, store, made, dead, lxmade, lxdead>>

NewRegistry(r) ==
    /\ InBody /\ ~regs[r].live
    /\ regs' = [regs EXCEPT ![r] = NewReg]
    /\ obs' = Seen("new", {}, {})
    /\ UNCHANGED <<frames, store, made, dead, lxmade, lxdead>>

DeleteRegistry(r) ==
    LET old == BoundTokens(regs[r].cmds) lx == LexIds(regs[r].lx) IN
    /\ InBody /\ regs[r].live /\ ~Busy(r)
    /\ regs' = [regs EXCEPT ![r] = DeadReg]
    /\ Dying(old, lx)
    /\ obs' = Seen("delete", old, lx)
    /\ UNCHANGED <<frames, store, made, lxmade>>

\* Everything goes to the destination; the source is as good as new.
MoveConstruct(d, s) ==
    /\ InBody /\ regs[s].live /\ ~regs[d].live /\ ~Busy(s) /\ d # s
    /\ regs' = [regs EXCEPT ![d] = regs[s], ![s] = NewReg]
    /\ obs' = Seen("mvctor", {}, {})
    /\ UNCHANGED <<frames, store, made, dead, lxmade, lxdead>>

\* The destination's old content is gone once the source was cleared and given a new lexer.
\* `found` are the names the source still had before that: none, or the destination's old ones.
MoveAssign(d, s, found) ==
    LET old == BoundTokens(regs[d].cmds) lx == LexIds(regs[d].lx) IN
    /\ InBody /\ regs[s].live /\ regs[d].live /\ ~Busy(s) /\ ~Busy(d) /\ d # s
    /\ found \in {{}, DOMAIN regs[d].cmds}
    /\ regs' = [regs EXCEPT ![d] = regs[s], ![s] = NewReg]
    /\ Dying(old, lx)
    /\ obs' = Seen("mvassign", old, lx)
    /\ UNCHANGED <<frames, store, made, lxmade>>

\* A new tracked lexer of some kind.
SetLexer(r, id, k) ==
    LET old == LexIds(regs[r].lx) IN
    /\ InBody /\ regs[r].live
    /\ regs' = [regs EXCEPT ![r].lx = [id |-> id, k |-> k]]
    /\ lxmade' = lxmade \cup {id}
    /\ Dying({}, old)
    /\ obs' = Seen("setlexer", {}, old)
    /\ UNCHANGED <<frames, store, made>>

\* The program writes to a variable or object.
Poke(c, v) ==
    /\ InBody
    /\ store' = [store EXCEPT ![c] = v]
    /\ obs' = Seen("poke", {}, {})
    /\ UNCHANGED <<regs, frames, made, dead, lxmade, lxdead>>

(***************************************************************************)
(* Executing.  A frame: [r, fate, d, in, args, errs, out, ret, exc, sets, g]*)
(*   fate  "enter" (a callable is about to be called), "body" (it runs),   *)
(*         "done" (the result is settled)                                  *)
(*   in    [name, args, named] as the result will report it                *)
(*   exc   the exception that passes through (catching disabled)           *)
(*   may   an exception that is met only if a value is rendered that will  *)
(*         not be reported                                                 *)
(*   sets  values given to property setters;  g: must a getter run? 0 no,  *)
(*         1 yes, 2 unspecified                                            *)
(***************************************************************************)
NoInput == [name |-> <<>>, args |-> <<>>, named |-> <<>>]
Frame(r, fate, in) == [r |-> r, fate |-> fate, d |-> <<>>, in |-> in, args |-> <<>>, errs |-> <<>>, out |-> <<>>,
                       ret |-> <<>>, exc |-> <<>>, may |-> <<>>, sets |-> <<>>, g |-> 0]

\* Texts of the overloads' parameter counts: "0", "0 or 1", "0, 1 or 4".
Counts(ds) ==
    LET n == Len(ds) c == [i \in 1..n |-> NatText(Len(ds[i].ps))] IN
    IF n = 0 THEN <<>> ELSE IF n = 1 THEN c[1]
    ELSE Join(SubSeq(c, 1, n - 1), tComma) \o tOr \o c[n]
WrongNumber(name, ds, got) == tWrongNum \o CText(name) \o tExpected \o Counts(ds) \o tGot \o NatText(got)

\* The first overload that takes n arguments (0 if there is none).
Fitting(ds, n) ==
    LET fit == { i \in 1..Len(ds) : Len(ds[i].ps) = n }
    IN  IF fit = {} THEN 0 ELSE CHOOSE i \in fit : \A j \in fit : i <= j

\* The execution is left by an exception [k, s]: k is "std" or "derived" (with a text) or another kind.
Blown(f, x) ==
    IF CatchExc
    THEN [f EXCEPT !.fate = "done", !.errs = Append(@, IF x.k \in {"std", "derived"} THEN tExcColon \o CText(x.s) ELSE tExc)]
    ELSE [f EXCEPT !.fate = "done", !.exc = <<x>>]
AccessorExc == [k |-> "std", s |-> <<110, 111>>]    \* no

\* With several arguments, the specification fixes what happens if one of them explodes and all others convert.

\* [f |-> frame, st |-> store] of a call with an understood input.
Dispatch(r, in) ==
    LET base == Frame(r, "done", in)
        Fail(errs) == [f |-> [base EXCEPT !.errs = errs], st |-> store]
        ds == At(r, in.name)
        i == Fitting(ds, Len(in.args))
    IN  IF in.name = <<>> THEN Fail(<<tNoName>>)
        ELSE IF ~Bound(r, in.name) THEN Fail(<<tNoFunc \o CText(in.name) \o tNotReg>>)
        ELSE IF i = 0 THEN Fail(<<WrongNumber(in.name, ds, Len(in.args))>>)
        ELSE LET d == ds[i]
                 n == Len(d.ps)
                 cv == [j \in 1..n |-> Conv(AliasNames, d.ps[j], in.args[j])]
                 bad == SelectSeq([j \in 1..n |-> j], LAMBDA j : ~cv[j].ok)
                 blow == SelectSeq([j \in 1..n |-> j], LAMBDA j : Explodes(d.ps[j], in.args[j]) # <<>>)
                 val(c) == Render(Cells[c].t, store[c])
                 \* the cell's value is rendered
                 Shows(f, c, st) == LET x == RenderExplodes(Cells[c].t, st[c]) IN
                                    [f |-> IF x # <<>> THEN Blown(f, x[1]) ELSE [f EXCEPT !.ret = <<Render(Cells[c].t, st[c])>>], st |-> st]
             IN  IF blow # <<>> THEN [f |-> Blown(base, Explodes(d.ps[blow[1]], in.args[blow[1]])[1]), st |-> store]
                 ELSE IF bad # <<>> THEN Fail([j \in 1..Len(bad) |-> cv[bad[j]].e])
                 ELSE CASE d.k = "user" -> [f |-> [base EXCEPT !.fate = "enter", !.d = d, !.args = [j \in 1..n |-> cv[j].v]], st |-> store]
                        [] d.k = "get"  -> Shows(base, d.c, store)
                        [] d.k = "xget" -> IF store[d.c] = <<49, 53>> THEN [f |-> Blown([base EXCEPT !.g = 1], AccessorExc), st |-> store]
                                           ELSE [f |-> [base EXCEPT !.ret = <<val(d.c)>>, !.g = 1], st |-> store]
                        [] d.k = "xset" ->
                             LET f == [base EXCEPT !.sets = <<[c |-> d.c, v |-> Show(Cells[d.c].t, cv[1].v)]>>]
                                 w == Written(d.c, store[d.c], cv[1].v)
                                 st == [store EXCEPT ![d.c] = w]
                             IN  IF cv[1].v = <<49, 52>> THEN [f |-> Blown([f EXCEPT !.g = 2], AccessorExc), st |-> store]
                                 ELSE IF w = <<49, 53>> THEN [f |-> Blown([f EXCEPT !.g = 1], AccessorExc), st |-> st]
                                 ELSE [f |-> [f EXCEPT !.ret = <<Render(Cells[d.c].t, w)>>, !.g = 1], st |-> st]
                        [] d.k = "pget" -> [f |-> [base EXCEPT !.ret = <<val(d.c)>>, !.g = 1], st |-> store]
                        [] d.k \in {"set", "pset"} ->
                             LET w == Written(d.c, store[d.c], cv[1].v) IN
                             [f |-> [base EXCEPT !.ret = <<Render(Cells[d.c].t, w)>>,
                                                 !.g = IF d.k = "pset" THEN 1 ELSE 0,
                                                 !.sets = IF d.k = "pset" THEN <<[c |-> d.c, v |-> Show(Cells[d.c].t, cv[1].v)]>> ELSE <<>>],
                              st |-> [store EXCEPT ![d.c] = w]]
                        [] d.k = "roset"  -> Fail(<<tRoVar>>)
                        [] d.k = "proset" -> [f |-> [base EXCEPT !.errs = <<tRoProp>>, !.g = 2], st |-> store]

\* What a registry's lexer makes of a text.
Cfg2 == [groups |-> {91, 93}, quotes |-> {96}, seps |-> {58}, spaces |-> {32, 95}]   \* [ ] ` : space _
Understand(lx, s) ==
    CASE lx.k = "default" -> Parse(DefaultCfg, s)
      [] lx.k = "custom"  -> Parse(Cfg2, s)
      [] lx.k = "whole"   -> [ok |-> TRUE, name |-> s, args |-> <<>>, named |-> <<>>]   \* the text is the name
      [] lx.k = "fail"    -> [ok |-> FALSE, msg |-> s]                                  \* every text is refused

Started(step) ==
    /\ frames' = Append(frames, step.f)
    /\ store' = step.st
    /\ obs' = Seen("exec", {}, {})
    /\ UNCHANGED <<regs, made, dead, lxmade, lxdead>>

ExecText(r, s) ==
    /\ InBody /\ regs[r].live
    /\ LET p == Understand(regs[r].lx, s)
       IN  Started(IF p.ok THEN Dispatch(r, [name |-> p.name, args |-> p.args, named |-> p.named])
                   ELSE [f |-> [Frame(r, "done", NoInput) EXCEPT !.errs = <<tSyntax \o p.msg>>], st |-> store])

ExecInput(r, in) == InBody /\ regs[r].live /\ Started(Dispatch(r, in))

\* The callable receives its arguments.
Enter ==
    /\ Running /\ Top.fate = "enter"
    /\ SetTop([Top EXCEPT !.fate = "body"])
    /\ obs' = Seen("enter", {}, {}) @@ [tag |-> Top.d.tag, args |-> [i \in 1..Len(Top.args) |-> Show(Top.d.ps[i], Top.args[i])]]
    /\ UNCHANGED <<regs, store, made, dead, lxmade, lxdead>>

Body == Running /\ Top.fate = "body"
BodyCtx == Body /\ Top.d.ctx
Within(f, o) == /\ SetTop(f)
                /\ obs' = o
                /\ UNCHANGED <<regs, store, made, dead, lxmade, lxdead>>

PadLeft(s, n, c) == IF Len(s) >= n THEN s ELSE [i \in 1..n - Len(s) |-> c] \o s
PadRight(s, n) == IF Len(s) >= n THEN s ELSE s \o [i \in 1..n - Len(s) |-> 32]

\* What a logging call adds to the output.
Logged(k, s) == CASE k = "log" -> s [] k = "line" -> s \o <<10>>
                  [] k = "logf" -> tLt \o CText(s) \o tGt [] k = "linef" -> tLt \o CText(s) \o tGt \o <<10>>
                  [] k = "fmt" ->         \* "%d:%s|%5s|%c%%" of the length, the text, the text, z
                        NatText(Len(s)) \o <<58>> \o CText(s) \o <<124>> \o PadLeft(CText(s), 5, 32) \o <<124, 122, 37>>
                  [] k = "linefmt" ->     \* "%zu:%-6s|%.3s|%05d" of the length, the text, the text, the length
                        NatText(Len(s)) \o <<58>> \o PadRight(CText(s), 6) \o <<124>> \o SubSeq(CText(s), 1, IF Len(CText(s)) < 3 THEN Len(CText(s)) ELSE 3)
                            \o <<124>> \o PadLeft(NatText(Len(s)), 5, 48) \o <<10>>
Log(k, s) == BodyCtx /\ Within([Top EXCEPT !.out = @ \o Logged(k, s)], Seen("log", {}, {}))

Report(errs) == BodyCtx /\ Within([Top EXCEPT !.errs = @ \o errs], Seen("report", {}, {}))

HasErrors == BodyCtx /\ Within(Top, Seen("haserr", {}, {}) @@ [v |-> Top.errs # <<>>])

\* Named arguments.
FirstKey(named, k) ==
    LET hit == { i \in 1..Len(named) : named[i].k = k }
    IN  IF hit = {} THEN 0 ELSE CHOOSE i \in hit : \A j \in hit : i <= j
NamedConv(named, k, t) ==
    LET i == FirstKey(named, k) IN
    IF i = 0 THEN [ok |-> FALSE, ty |-> "missing", e |-> tMissing \o CText(k) \o tQuote]
    ELSE LET c == Conv(AliasNames, t, named[i].v)
         IN  IF c.ok THEN [ok |-> TRUE, v |-> Show(t, c.v)] ELSE [ok |-> FALSE, ty |-> "mismatch", e |-> c.e]

NamedGet(k, t) == BodyCtx /\ Within(Top, Seen("nget", {}, {}) @@ [out |-> NamedConv(Top.in.named, k, t)])

\* def: <<>> or <<default>>
NamedReport(k, t, req, def) ==
    /\ BodyCtx
    /\ LET c == NamedConv(Top.in.named, k, t)
           silent == c.ok \/ (c.ty = "missing" /\ ~req)
           out == IF c.ok THEN <<c.v>> ELSE IF silent THEN def ELSE <<>>
       IN  Within(IF silent THEN Top ELSE [Top EXCEPT !.errs = Append(@, c.e)], Seen("nrep", {}, {}) @@ [out |-> out])

NamedAll == BodyCtx /\ Within(Top, Seen("nall", {}, {}) @@ [all |-> Top.in.named, size |-> Len(Top.in.named)])

\* The callable returns v (shown); it is rendered iff something was returned and no error was reported.
RECURSIVE Unshow(_, _)
Unshow(t, v) == CASE t[1] \in FloatTypes -> ParseDecimal(v).v
                  [] t[1] \in {"vec", "opt", "ptr"} -> [i \in 1..Len(v) |-> Unshow(Tail(t), v[i])]
                  [] OTHER -> v
Return(v) ==
    /\ Body
    /\ LET rt == Top.d.rt
           uv == Unshow(rt, v)
           x == RenderExplodes(rt, uv)
           shown == [i \in 1..Len(Top.args) |-> Show(Top.d.ps[i], Top.args[i])]    \* the arguments are what they were
           f == IF rt = <<"void">> THEN [Top EXCEPT !.fate = "done"]
                ELSE IF x # <<>> THEN IF Top.errs = <<>> THEN Blown(Top, x[1]) ELSE [Top EXCEPT !.fate = "done", !.may = x]
                ELSE [Top EXCEPT !.fate = "done", !.ret = IF Top.errs # <<>> THEN <<>> ELSE <<Render(rt, uv)>>]
       IN  Within(f, Seen("ret", {}, {}) @@ [args |-> shown])

\* The callable is left by an exception.
Throw(k, s) == Body /\ Within(Blown(Top, [k |-> k, s |-> s]), Seen("throw", {}, {}))

Outcome(f) == [x |-> IF f.exc = <<>> THEN [in |-> f.in, errs |-> f.errs, out |-> f.out, ret |-> f.ret]
                                       ELSE [in |-> NoInput, errs |-> <<>>, out |-> <<>>, ret |-> <<>>],
               exc |-> f.exc]

\* The execution gives its result to its caller.
End ==
    /\ Running /\ Top.fate = "done"
    /\ frames' = SubSeq(frames, 1, Len(frames) - 1)
    /\ obs' = Seen("end", {}, {}) @@
              [x |-> Outcome(Top).x, exc |-> Outcome(Top).exc, sets |-> Top.sets, g |-> Top.g,
               may |-> IF Top.may = <<>> THEN <<>> ELSE <<Outcome(Blown(Top, Top.may[1]))>>]
    /\ UNCHANGED <<regs, store, made, dead, lxmade, lxdead>>

(***************************************************************************)
(* Invariants.                                                             *)
(***************************************************************************)
Owned(r) == BoundTokens(regs[r].cmds)

\* Every tracked callable is either bound in exactly one place or destroyed.
OwnedOnce ==
    LET owned == UNION { Owned(r) : r \in Slots } IN
    /\ made \ dead = owned
    /\ \* nothing is owned in two places
       MapThenSumSet(LAMBDA r : MapThenSumSet(LAMBDA n : Cardinality(Tokens(regs[r].cmds[n])), DOMAIN regs[r].cmds), Slots) = Cardinality(owned)
LexersOwnedOnce ==
    /\ \A l \in lxmade : l \in lxdead <=> \A r \in Slots : regs[r].lx.id # l
    /\ \A r, s \in Slots : r # s /\ regs[r].lx.id # 0 => regs[r].lx.id # regs[s].lx.id

\* A result has a value only if there are no errors; a callable runs only with the right, converted arguments.
ResultsSane ==
    \A i \in 1..Len(frames) :
      /\ frames[i].ret # <<>> => frames[i].fate = "done" /\ frames[i].errs = <<>>
      /\ frames[i].fate \in {"enter", "body"} =>
            /\ Len(frames[i].d.ps) = Len(frames[i].in.args)
            /\ \A j \in 1..Len(frames[i].d.ps) :
                  LET c == Conv(AliasNames, frames[i].d.ps[j], frames[i].in.args[j]) IN c.ok /\ c.v = frames[i].args[j]
      /\ frames[i].out # <<>> => frames[i].d # <<>>
      /\ CatchExc => frames[i].exc = <<>>
      /\ i < Len(frames) => frames[i].fate = "body"

\* Steps touch only the innermost execution; its input never changes.
Isolation ==
    [][ /\ \A i \in 1..Len(frames) : i < Len(frames) /\ i < Len(frames') => frames'[i] = frames[i]
        /\ Len(frames') = Len(frames) /\ Running => frames'[Len(frames)].in = Top.in /\ frames'[Len(frames)].r = Top.r
        /\ dead \subseteq dead' /\ lxdead \subseteq lxdead' ]_vars

\* A command's own changes to the registries never change its own result.
ResultsIndependent ==
    [][ regs' # regs /\ Running => frames' = frames ]_vars
====
