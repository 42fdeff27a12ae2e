---- MODULE MC_Conv ----
(***************************************************************************)
(* Every short text over the characters that matter, converted to every    *)
(* type: the conversion specification agrees with an independent numeric   *)
(* reading, never leaves the type's range, and its renderings convert back.*)
(***************************************************************************)
EXTENDS CoilConv, TLC

CONSTANTS Alphabet, MaxLen

VARIABLE text
Init == text = <<>>
Next == /\ Len(text) < MaxLen
        /\ \E c \in Alphabet : text' = Append(text, c)
Spec == Init /\ [][Next]_text

SmallTypes == {"char", "schar", "uchar", "short", "ushort"}
Low(t)  == CASE t \in {"char", "schar"} -> -128 [] t = "short" -> -32768 [] OTHER -> 0
High(t) == CASE t \in {"char", "schar"} -> 127 [] t = "uchar" -> 255 [] t = "short" -> 32767 [] t = "ushort" -> 65535

\* The integer a text denotes, if it is one: a second, numeric definition.
Denoted(s) ==
    LET a == SkipWhite(s)
        signed == a # <<>> /\ a[1] \in {43, 45}
        ds == IF signed THEN Tail(a) ELSE a
    IN  IF ds = <<>> \/ ~AllDigits(ds) THEN {}
        ELSE {IF signed /\ a[1] = 45 THEN -NumOf(ds) ELSE NumOf(ds)}
NegativeText(s) == LET a == SkipWhite(s) IN a # <<>> /\ a[1] = 45

IntsAgree ==
    \A t \in SmallTypes :
        LET p == ParseInt(t, text) d == Denoted(text) IN
          /\ p.ok <=> \E n \in d : Low(t) <= n /\ n <= High(t) /\ ~(t \in UnsignedTypes /\ NegativeText(text))
          /\ p.ok => \A n \in d : n = (IF p.v[1] = 45 THEN -NumOf(Tail(p.v)) ELSE NumOf(p.v))

\* wider types accept what narrower types of the same signedness accept, with the same value
Widening ==
    /\ \A a \in {"schar", "short", "int", "long"} :
         LET p == ParseInt(a, text) q == ParseInt("llong", text) IN p.ok => q.ok /\ q.v = p.v
    /\ \A a \in {"uchar", "ushort", "uint", "ulong"} :
         LET p == ParseInt(a, text) q == ParseInt("ullong", text) IN p.ok => q.ok /\ q.v = p.v

RoundTrip ==
    /\ \A t \in IntTypes \cup {"bool", "string", "color"} :
         LET c == Conv(FALSE, <<t>>, <<text>>) IN
           c.ok => Conv(FALSE, <<t>>, <<Render(<<t>>, c.v)>>) = c
    /\ \A t \in {"int", "bool"} :
         LET c == Conv(FALSE, <<"opt", t>>, <<text>>) IN
           c.ok => Conv(FALSE, <<"opt", t>>, <<Render(<<"opt", t>>, c.v)>>) = c

FloatAgree ==
    /\ \* an integer text is a number with that value
       \A n \in Denoted(text) :
          LET p == ParseDecimal(text) IN p.ok /\ (p.v.d = <<>> <=> n = 0)
                /\ (n # 0 => GText(p.v, 15) = Conv(FALSE, <<"llong">>, <<text>>).v \/ p.v.x >= 15)
    /\ \* rendering rounds once and converts back to the rounded number
       LET p == ParseDecimal(text) IN p.ok /\ p.v.d # <<>> =>
          LET q == ParseDecimal(GText(p.v, 6)) IN q.ok /\ q.v = RoundTo(p.v, 6) /\ Len(q.v.d) <= 6

\* Compound values fail exactly when an element fails, whichever comes first.
Compound ==
    LET v == <<"vec", "int">>
        c == Conv(FALSE, v, <<text, <<49>>, text>>)
        e == Conv(FALSE, <<"int">>, <<text>>)
    IN  /\ c.ok <=> e.ok
        /\ c.ok => c.v = <<e.v, <<49>>, e.v>>
        /\ ~c.ok => c.e = GenericError(FALSE, v, <<text, <<49>>, text>>, e.e)
====
