---- MODULE MC_Lexer ----
(***************************************************************************)
(* Exhaustive exploration of the lexer state machine: every text up to     *)
(* MaxLen over Alphabet, one character per step.                           *)
(***************************************************************************)
EXTENDS CoilLexer, FiniteSets, TLC

CONSTANTS MaxLen, Alphabet

VARIABLES inp, st
vars == <<inp, st>>

Init == inp = <<>> /\ st = TokInit

Feed(c) == /\ Len(inp) < MaxLen
           /\ inp' = Append(inp, c)
           /\ st' = TokStep(DefaultCfg, st, c)

Next == \E c \in Alphabet : Feed(c)
Spec == Init /\ [][Next]_vars

Cfg == DefaultCfg
Quotes == Cfg.quotes
Res == Parse(Cfg, inp)

\* The state machine is the function used for conformance.
Incremental == TokEnd(st) = Tokenize(Cfg, inp)

\* Every byte of a token comes from the text, in order (nothing invented, duplicated or reordered).
RECURSIVE IsSubsequence(_, _)
IsSubsequence(a, b) ==
    IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
    ELSE IF Head(a) = Head(b) THEN IsSubsequence(Tail(a), Tail(b)) ELSE IsSubsequence(a, Tail(b))
TokText(toks) == FlattenSeq([i \in 1..Len(toks) |-> toks[i].s])
OnlyFromText == LET t == TokEnd(st) IN t.ok => IsSubsequence(TokText(t.toks), inp)

\* Nothing but whitespace, quotes and group characters is ever dropped by the tokenizer.
Kept(s) == SelectSeq(s, LAMBDA c : CharType(Cfg, c) \in {"string", "assign"})
NothingLost == LET t == TokEnd(st) IN t.ok => Kept(TokText(t.toks)) = Kept(inp)

\* Quoting makes any text without quotes one verbatim argument.
NoQuotes(s) == \A i \in 1..Len(s) : s[i] \notin Quotes
QuotedVerbatim ==
    NoQuotes(inp) =>
        \A q \in {39, 34} :
          /\ Parse(Cfg, <<102, 32, q>> \o inp \o <<q>>) =
                [ok |-> TRUE, name |-> <<102>>, args |-> <<<<inp>>>>, named |-> <<>>]
          /\ Parse(Cfg, <<102, 32, 107, 61, q>> \o inp \o <<q>>) =
                [ok |-> TRUE, name |-> <<102>>, args |-> <<>>, named |-> <<[k |-> <<107>>, v |-> <<inp>>]>>]
          /\ NoQuotes(inp) /\ (\A i \in 1..Len(inp) : inp[i] \notin Cfg.groups) =>
                Parse(Cfg, <<102, 32, 40, q>> \o inp \o <<q, 41>>) =
                  [ok |-> TRUE, name |-> <<102>>, args |-> <<<<inp>>>>, named |-> <<>>]

\* Extra whitespace around a text changes nothing.
WhitespaceNeutral == Parse(Cfg, <<32, 9>> \o inp \o <<10>>) = Res

\* Parsing is a prefix-independent scan: continuing after an idle state adds tokens only.
Compositional ==
    st.mode = "idle" =>
        \A w \in {<<97>>, <<97, 32, 98>>, <<40, 97, 41>>} :
            Tokenize(Cfg, inp \o w).toks = st.toks \o Tokenize(Cfg, w).toks

\* A rejected text has exactly one reason; an accepted one accounts for every token.
Accounting ==
    LET t == TokEnd(st) IN
    IF ~t.ok THEN ~Res.ok /\ Res.msg = t.msg
    ELSE IF Res.ok THEN
        Len(t.toks) = (IF t.toks = <<>> THEN 0 ELSE 1) + Len(Res.args) + 3 * Len(Res.named)
    ELSE Len(Res.msg) > 0

\* An unfinished construct is never accepted.
NoSilentTruncation == (st.mode \in {"quote", "group"}) => ~Res.ok

\* Group elements contain no separators outside quotes, and no element is empty unless it was quoted.
GroupElements ==
    LET g == SplitGroup(Cfg, inp) IN
    \A i \in 1..Len(g) :
        /\ IsSubsequence(g[i], inp)
        /\ (NoQuotes(inp) => g[i] # <<>> /\ \A j \in 1..Len(g[i]) : ~IsSep(Cfg, g[i][j]))

\* coverage goals (expected to be violated when used as invariants; see DESIGN.md)
NeverNamed == ~(Res.ok /\ Len(Res.named) > 0)
====
