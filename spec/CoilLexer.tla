---- MODULE CoilLexer ----
(***************************************************************************)
(* The command language of coil: how a command text becomes a command     *)
(* name, positional arguments and named arguments.                        *)
(*                                                                        *)
(* Both the tokenizer and the parser are state machines that consume one  *)
(* character / one token at a time (TokStep, ParseStep), so that the same *)
(* transitions are explored exhaustively by TLC (MC_Lexer) and evaluated  *)
(* on the texts that were given to the implementation (T_Lex, CoilExec).  *)
(* A delimiter configuration `cfg` is a record of four sets of bytes.     *)
(***************************************************************************)
EXTENDS Bytes

DefaultCfg == [groups |-> {40, 41}, quotes |-> {39, 34},
               seps |-> {44, 59, 124}, spaces |-> {32, 9, 10, 13}]

AssignByte == 61   \* '=' cannot be reconfigured

CharType(cfg, c) ==
    IF c = AssignByte THEN "assign"
    ELSE IF c \in cfg.spaces THEN "space"
    ELSE IF c \in cfg.groups THEN "group"
    ELSE IF c \in cfg.quotes THEN "quote"
    ELSE "string"

IsSep(cfg, c) == c \in cfg.spaces \/ c \in cfg.seps

(***************************************************************************)
(* Tokenizer.  Tokens: [k |-> "str" | "grp" | "eq", s |-> text].           *)
(***************************************************************************)
Tok(k, s) == [k |-> k, s |-> s]

TokInit == [mode |-> "idle", buf |-> <<>>, grp |-> FALSE, open |-> 0, toks |-> <<>>]

TokIdle(st, c, type) ==
    CASE type = "space"  -> [st EXCEPT !.mode = "idle"]
      [] type = "assign" -> [st EXCEPT !.mode = "idle", !.toks = Append(@, Tok("eq", <<c>>))]
      [] type = "quote"  -> [st EXCEPT !.mode = "quote", !.buf = <<>>, !.open = c]
      [] type = "group"  -> [st EXCEPT !.mode = "group", !.buf = <<>>, !.open = c]
      [] type = "string" -> [st EXCEPT !.mode = "word", !.buf = <<c>>, !.grp = FALSE]

CloseWord(st) ==
    [st EXCEPT !.mode = "idle", !.buf = <<>>, !.grp = FALSE,
               !.toks = Append(@, Tok(IF st.grp THEN "grp" ELSE "str", st.buf))]
CloseQuote(st) ==
    [st EXCEPT !.mode = "idle", !.buf = <<>>, !.open = 0, !.toks = Append(@, Tok("str", st.buf))]
CloseGroup(st) ==
    [st EXCEPT !.mode = "idle", !.buf = <<>>, !.open = 0, !.toks = Append(@, Tok("grp", st.buf))]

\* One character.  A word becomes a group when a separator follows its first character.
TokStep(cfg, st, c) ==
    LET type == CharType(cfg, c)
    IN  CASE st.mode = "idle"  -> TokIdle(st, c, type)
          [] st.mode = "word"  -> IF type = "string"
                                  THEN [st EXCEPT !.buf = Append(@, c), !.grp = @ \/ IsSep(cfg, c)]
                                  ELSE TokIdle(CloseWord(st), c, type)
          [] st.mode = "quote" -> IF type = "quote" THEN CloseQuote(st)
                                  ELSE [st EXCEPT !.buf = Append(@, c)]
          [] st.mode = "group" -> IF type = "group" THEN CloseGroup(st)
                                  ELSE [st EXCEPT !.buf = Append(@, c)]

TokRun(cfg, st, s) == FoldLeft(LAMBDA acc, c : TokStep(cfg, acc, c), st, s)

\* End of the text: [ok, toks] or [ok, msg].
TokEnd(st) ==
    CASE st.mode = "idle"  -> [ok |-> TRUE, toks |-> st.toks]
      [] st.mode = "word"  -> [ok |-> TRUE, toks |-> CloseWord(st).toks]
      [] st.mode = "quote" -> [ok |-> FALSE, msg |-> tTokenQ \o <<st.open>> \o tNoQuote]
      [] st.mode = "group" -> [ok |-> FALSE, msg |-> tTokenQ \o <<st.open>> \o tNoGroup]

Tokenize(cfg, s) == TokEnd(TokRun(cfg, TokInit, s))

(***************************************************************************)
(* The content of a group: elements between separators; separators inside  *)
(* quotes do not separate; the outer quotes of an element are dropped.     *)
(***************************************************************************)
SplitInit == [in |-> FALSE, q |-> FALSE, buf |-> <<>>, out |-> <<>>]

StripQuotes(cfg, e) ==
    IF Len(e) >= 2 /\ e[1] \in cfg.quotes /\ e[Len(e)] \in cfg.quotes
    THEN SubSeq(e, 2, Len(e) - 1) ELSE e

SplitFlush(cfg, st) ==
    IF st.in THEN [in |-> FALSE, q |-> FALSE, buf |-> <<>>, out |-> Append(st.out, StripQuotes(cfg, st.buf))]
    ELSE st

SplitStep(cfg, st, c) ==
    IF IsSep(cfg, c) /\ ~st.q THEN SplitFlush(cfg, st)
    ELSE [st EXCEPT !.in = TRUE, !.buf = Append(@, c), !.q = IF c \in cfg.quotes THEN ~@ ELSE @]

SplitGroup(cfg, s) ==
    SplitFlush(cfg, FoldLeft(LAMBDA acc, c : SplitStep(cfg, acc, c), SplitInit, s)).out

\* The value (sequence of subvalues) of a token used as an argument.
TokValue(cfg, t) == IF t.k = "grp" THEN SplitGroup(cfg, t.s) ELSE <<t.s>>

(***************************************************************************)
(* Parser: the first token is the command name; `a = b` is a named argument.*)
(***************************************************************************)
ParseInit == [name |-> <<>>, first |-> TRUE, prim |-> <<>>, eq |-> FALSE,
              args |-> <<>>, named |-> <<>>, err |-> <<>>]

FlushPrim(cfg, ps) ==
    IF ps.prim = <<>> THEN ps
    ELSE [ps EXCEPT !.args = Append(@, TokValue(cfg, ps.prim[1])), !.prim = <<>>]

ParseStep(cfg, ps, t) ==
    IF ps.err # <<>> THEN ps
    ELSE IF ps.first THEN
        IF t.k = "str" THEN [ps EXCEPT !.first = FALSE, !.name = t.s]
        ELSE [ps EXCEPT !.err = tUnexpTok \o CText(t.s) \o tAtBegin]
    ELSE IF t.k = "eq" THEN
        IF ps.prim = <<>> THEN [ps EXCEPT !.err = tNoNameArg]
        ELSE IF ps.eq THEN [ps EXCEPT !.err = tExpValEq]
        ELSE [ps EXCEPT !.eq = TRUE]
    ELSE IF ps.eq THEN
        [ps EXCEPT !.eq = FALSE, !.prim = <<>>,
                   !.named = Append(@, [k |-> ps.prim[1].s, v |-> TokValue(cfg, t)])]
    ELSE [FlushPrim(cfg, ps) EXCEPT !.prim = <<t>>]

ParseEnd(cfg, ps) ==
    IF ps.err # <<>> THEN [ok |-> FALSE, msg |-> ps.err]
    ELSE IF ps.eq THEN [ok |-> FALSE, msg |-> tExpValEnd]
    ELSE LET p == FlushPrim(cfg, ps)
         IN  [ok |-> TRUE, name |-> p.name, args |-> p.args, named |-> p.named]

ParseTokens(cfg, toks) ==
    ParseEnd(cfg, FoldLeft(LAMBDA acc, t : ParseStep(cfg, acc, t), ParseInit, toks))

\* [ok |-> TRUE, name, args, named]  or  [ok |-> FALSE, msg]
Parse(cfg, s) ==
    LET t == Tokenize(cfg, s)
    IN  IF t.ok THEN ParseTokens(cfg, t.toks) ELSE t
====
