---- MODULE T_Lex ----
(***************************************************************************)
(* Observations of the lexer and of command execution, checked against     *)
(* CoilLexer.                                                              *)
(***************************************************************************)
EXTENDS CoilLexer, Json, IOUtils, TLC

Block(b) == ndJsonDeserialize(IOEnv.VH_BLOCKS \o "/" \o ToString(b))
CfgList == ndJsonDeserialize(IOEnv.VH_CONFIGS)
Cfgs == [i \in 1..Len(CfgList) |->
            [groups |-> ToSet(CfgList[i].groups), quotes |-> ToSet(CfgList[i].quotes),
             seps |-> ToSet(CfgList[i].seps), spaces |-> ToSet(CfgList[i].spaces)]]

MaxArity == 4  \* the registered overloads take 0..4 positional arguments

Arities == Join([i \in 1..MaxArity |-> NatText(i - 1)], tComma) \o tOr \o NatText(MaxArity)

WrongNumber(name, got) == tWrongNum \o CText(name) \o tExpected \o Arities \o tGot \o NatText(got)

\* What executing a parsed text does when `name` has overloads for 0..MaxArity values.
ExpErrors(p) ==
    IF ~p.ok THEN <<tSyntax \o p.msg>>
    ELSE IF p.name = <<>> THEN <<tNoName>>
    ELSE IF Len(p.args) > MaxArity THEN <<WrongNumber(p.name, Len(p.args))>>
    ELSE <<>>
ExpCalls(p) ==
    IF p.ok /\ p.name # <<>> /\ Len(p.args) <= MaxArity THEN <<[a |-> p.args, k |-> p.named]>> ELSE <<>>

SameInput(r, p) == r.n = p.name /\ r.a = p.args /\ r.k = p.named

Ok(r) ==
    r.how = "ok" /\
    LET p == Parse(Cfgs[r.c], r.s) IN
      /\ r.p.ok = p.ok
      /\ IF p.ok THEN SameInput(r.p, p) ELSE r.p.msg = p.msg
      /\ IF p.ok THEN SameInput(r.x, p) ELSE SameInput(r.x, [name |-> <<>>, args |-> <<>>, named |-> <<>>])
      /\ r.x.e = ExpErrors(p)
      /\ r.x.c = ExpCalls(p)
      /\ r.x.r = <<>> /\ r.x.o = <<>>

VARIABLES pos, good
INSTANCE Records WITH NBlocks <- atoi(IOEnv.VH_NBLOCKS), ReadBlock <- Block, OkRec <- Ok
====
