---- MODULE CoilConv ----
(***************************************************************************)
(* Conversion between texts and typed values, and the rendering of values. *)
(*                                                                         *)
(* A type is a sequence of names, outermost first: <<"int">>,              *)
(* <<"vec", "opt", "int">>.  An argument is the sequence of its subvalues  *)
(* (each a text).  Conv(alias, t, subs) is [ok |-> TRUE, v |-> value] or   *)
(* [ok |-> FALSE, e |-> error text].  Values: integers, strings, booleans  *)
(* and user types as texts; floating-point numbers as decimals; vectors as *)
(* sequences of values; optionals as sequences of at most one value.       *)
(*                                                                         *)
(* Numbers are handled on their decimal digits: TLC's integers have 32     *)
(* bits, coil's have 64 and more.                                          *)
(***************************************************************************)
EXTENDS Bytes, FiniteSets

IsDigit(c) == c \in 48..57
IsWhite(c) == c \in {32, 9, 10, 11, 12, 13}     \* isspace

RECURSIVE SkipWhite(_)
SkipWhite(s) == IF s # <<>> /\ IsWhite(Head(s)) THEN SkipWhite(Tail(s)) ELSE s
RECURSIVE SkipZeros(_)
SkipZeros(s) == IF s # <<>> /\ Head(s) = 48 THEN SkipZeros(Tail(s)) ELSE s
RECURSIVE DropZeros(_)
DropZeros(s) == IF s # <<>> /\ s[Len(s)] = 48 THEN DropZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s
AllDigits(s) == \A i \in 1..Len(s) : IsDigit(s[i])

(***************************************************************************)
(* Integers.                                                               *)
(***************************************************************************)
\* Magnitudes are digit texts without leading zeros; zero is <<>>.
RECURSIVE LexLeq(_, _)
LexLeq(a, b) == IF a = <<>> THEN TRUE
                ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE LexLeq(Tail(a), Tail(b))
MagLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLeq(a, b))

Digits(n) == SkipZeros(NatText(n))
D(ds) == [i \in 1..Len(ds) |-> 48 + ds[i]]
M31  == D(<<2,1,4,7,4,8,3,6,4,7>>)            \* 2^31 - 1
M31n == D(<<2,1,4,7,4,8,3,6,4,8>>)
M32  == D(<<4,2,9,4,9,6,7,2,9,5>>)            \* 2^32 - 1
M63  == D(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>)
M63n == D(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>)
M64  == D(<<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>)

SignedTypes == {"char", "schar", "short", "int", "long", "llong"}
UnsignedTypes == {"uchar", "ushort", "uint", "ulong", "ullong"}
IntTypes == SignedTypes \cup UnsignedTypes

MaxMag(t) == CASE t \in {"char", "schar"} -> Digits(127) [] t = "uchar" -> Digits(255)
               [] t = "short" -> Digits(32767) [] t = "ushort" -> Digits(65535)
               [] t = "int" -> M31 [] t = "uint" -> M32
               [] t \in {"long", "llong"} -> M63 [] t \in {"ulong", "ullong"} -> M64
MinMag(t) == CASE t \in {"char", "schar"} -> Digits(128) [] t = "short" -> Digits(32768)
               [] t = "int" -> M31n [] t \in {"long", "llong"} -> M63n

\* [ok, v]: v is the canonical decimal text.
ParseInt(t, s) ==
    LET a    == SkipWhite(s)
        sign == IF a # <<>> /\ Head(a) \in {43, 45} THEN <<Head(a)>> ELSE <<>>
        ds   == SubSeq(a, Len(sign) + 1, Len(a))
        mag  == SkipZeros(ds)
        neg  == sign = <<45>>
    IN  IF ds = <<>> \/ ~AllDigits(ds) THEN [ok |-> FALSE]
        ELSE IF neg /\ t \in UnsignedTypes THEN [ok |-> FALSE]
        ELSE IF ~MagLeq(mag, IF neg THEN MinMag(t) ELSE MaxMag(t)) THEN [ok |-> FALSE]
        ELSE [ok |-> TRUE, v |-> IF mag = <<>> THEN <<48>> ELSE IF neg THEN <<45>> \o mag ELSE mag]

(***************************************************************************)
(* Floating-point numbers: decimals [neg, d, x] = +-0.d1d2d3... * 10^(x+1), *)
(* i.e. d1 has weight 10^x; no leading or trailing zero digits; zero has   *)
(* d = <<>>.                                                               *)
(***************************************************************************)
FloatTypes == {"float", "double", "ldouble"}

\* The precision in which every decimal survives a round trip through the type.
Precision(t) == CASE t = "float" -> 6 [] t = "double" -> 15 [] t = "ldouble" -> 18
\* Decimal exponents that are certainly representable / certainly out of range.
MaxExp(t) == CASE t = "float" -> 37 [] t = "double" -> 307 [] t = "ldouble" -> 4931
MinExp(t) == CASE t = "float" -> -37 [] t = "double" -> -307 [] t = "ldouble" -> -4931
OverExp(t) == CASE t = "float" -> 39 [] t = "double" -> 309 [] t = "ldouble" -> 4933
UnderExp(t) == CASE t = "float" -> -47 [] t = "double" -> -326 [] t = "ldouble" -> -4953

RECURSIVE NumOf(_)
NumOf(ds) == IF ds = <<>> THEN 0 ELSE 10 * NumOf(SubSeq(ds, 1, Len(ds) - 1)) + (ds[Len(ds)] - 48)
\* Exponents are saturated far outside every range.
ExpOf(ds) == LET z == SkipZeros(ds) IN IF Len(z) > 6 THEN 1000000 ELSE NumOf(z)

\* Number of leading digits.
RECURSIVE DigitRun(_)
DigitRun(s) == IF s # <<>> /\ IsDigit(Head(s)) THEN 1 + DigitRun(Tail(s)) ELSE 0
From(s, i) == SubSeq(s, i, Len(s))

\* Texts whose meaning this specification does not fix (hexadecimal, infinities, NaNs).
ExoticFloat(s) == \E i \in 1..Len(s) : LowerByte(s[i]) \in {105, 110, 120}    \* i n x

ParseDecimal(s) ==
    LET a    == SkipWhite(s)
        sg   == IF a # <<>> /\ Head(a) \in {43, 45} THEN 1 ELSE 0
        b    == From(a, sg + 1)
        ni   == DigitRun(b)
        c    == From(b, ni + 1)
        dot  == c # <<>> /\ Head(c) = 46
        c1   == IF dot THEN Tail(c) ELSE c
        nf   == IF dot THEN DigitRun(c1) ELSE 0
        r    == From(c1, nf + 1)
        ip   == SubSeq(b, 1, ni)
        fp   == SubSeq(c1, 1, nf)
        hasE == r # <<>> /\ Head(r) \in {69, 101}
        r1   == IF hasE THEN Tail(r) ELSE r
        es   == IF hasE /\ r1 # <<>> /\ Head(r1) \in {43, 45} THEN 1 ELSE 0
        ed   == IF hasE THEN From(r1, es + 1) ELSE <<>>
        eneg == hasE /\ es = 1 /\ Head(r1) = 45
        e    == IF ~hasE THEN 0 ELSE IF eneg THEN -ExpOf(ed) ELSE ExpOf(ed)
        all  == ip \o fp
        sig  == SkipZeros(all)
        lead == Len(all) - Len(sig)
    IN  IF ni + nf = 0 THEN [ok |-> FALSE]
        ELSE IF ~hasE /\ r # <<>> THEN [ok |-> FALSE]
        ELSE IF hasE /\ (ed = <<>> \/ ~AllDigits(ed)) THEN [ok |-> FALSE]
        ELSE [ok |-> TRUE, v |-> [neg |-> sg = 1 /\ Head(a) = 45, d |-> DropZeros(sig),
                                  x |-> IF sig = <<>> THEN 0 ELSE Len(ip) - lead - 1 + e]]

\* Increment a digit text (same length, or one longer).
RECURSIVE Incr(_)
Incr(ds) == IF ds = <<>> THEN <<49>>
            ELSE IF ds[Len(ds)] = 57 THEN Append(Incr(SubSeq(ds, 1, Len(ds) - 1)), 48)
            ELSE [ds EXCEPT ![Len(ds)] = @ + 1]

\* Rounded to p significant digits.
RoundTo(v, p) ==
    IF Len(v.d) <= p THEN v
    ELSE LET kept == SubSeq(v.d, 1, p)
             up   == v.d[p + 1] >= 53
             r    == IF up THEN Incr(kept) ELSE kept
         IN  [v EXCEPT !.d = DropZeros(r), !.x = IF Len(r) > p THEN @ + 1 ELSE @]

Zeros(n) == [i \in 1..n |-> 48]

\* The text of printf("%.<p>g") for a decimal.
GText(v0, p) ==
    LET v    == RoundTo(v0, p)
        sign == IF v.neg THEN <<45>> ELSE <<>>
        n    == Len(v.d)
        mant == IF n = 1 THEN v.d ELSE <<v.d[1], 46>> \o SubSeq(v.d, 2, n)
        ax   == IF v.x < 0 THEN -v.x ELSE v.x
        exp  == <<101, IF v.x < 0 THEN 45 ELSE 43>> \o (IF ax < 10 THEN <<48>> ELSE <<>>) \o NatText(ax)
    IN  IF v.d = <<>> THEN sign \o <<48>>
        ELSE IF v.x < -4 \/ v.x >= p THEN sign \o mant \o exp
        ELSE IF v.x < 0 THEN sign \o <<48, 46>> \o Zeros(-v.x - 1) \o v.d
        ELSE IF n <= v.x + 1 THEN sign \o v.d \o Zeros(v.x + 1 - n)
        ELSE sign \o SubSeq(v.d, 1, v.x + 1) \o <<46>> \o SubSeq(v.d, v.x + 2, n)

\* Is the text's rounding to p digits independent of the binary representation?
SafeRound(v, p) == Len(v.d) <= p \/ v.d[p + 1] \notin {52, 53}

\* Close to the threshold below which numbers render as 0.
NearTiny(v) == \/ /\ v.d # <<>> /\ v.d[1] = 49 /\ v.x = -6
                  /\ \A i \in 2..5 : i <= Len(v.d) => v.d[i] = 48
               \/ /\ v.x = -7 /\ Len(v.d) >= 5
                  /\ \A i \in 1..5 : v.d[i] = 57
Tiny(v) == v.d = <<>> \/ v.x < -6

\* "fixed" / "rejected" / "open" (near the limits of the type: not specified here)
FloatClass(t, s) ==
    LET p == ParseDecimal(s) IN
    IF ExoticFloat(s) THEN "open"
    ELSE IF ~p.ok THEN "rejected"
    ELSE IF p.v.d = <<>> THEN "fixed"
    ELSE IF p.v.x > OverExp(t) \/ p.v.x < UnderExp(t) THEN "rejected"
    ELSE IF p.v.x > MaxExp(t) \/ p.v.x < MinExp(t) THEN "open"
    ELSE "fixed"

(***************************************************************************)
(* Type names and error texts.                                             *)
(***************************************************************************)
ScalarName(alias, t) ==
    CASE t = "void" -> nvoid [] t = "bool" -> nbool [] t = "char" -> nchar
      [] t = "schar" -> IF alias THEN nint8 ELSE nschar [] t = "uchar" -> IF alias THEN nuint8 ELSE nuchar
      [] t = "short" -> IF alias THEN nint16 ELSE nshort [] t = "ushort" -> IF alias THEN nuint16 ELSE nushort
      [] t = "int" -> IF alias THEN nint32 ELSE nint [] t = "uint" -> IF alias THEN nuint32 ELSE nuint
      [] t = "long" -> IF alias THEN nint64 ELSE nlong [] t = "ulong" -> IF alias THEN nuint64 ELSE nulong
      [] t = "llong" -> nllong [] t = "ullong" -> nullong
      [] t = "float" -> nfloat [] t = "double" -> ndouble [] t = "ldouble" -> nldouble
      [] t \in {"string", "sview", "stdstr", "stdview"} -> nstring
      [] t = "cstr" -> nchar [] t = "value" -> nValue [] t = "color" -> ncolor [] t = "point" -> npoint
      [] t = "bomb" -> <<66, 111, 109, 98>>

RECURSIVE NameOf(_, _)
NameOf(alias, t) ==
    CASE t[1] = "vec" -> tvector \o tLt \o NameOf(alias, Tail(t)) \o tGt
      [] t[1] = "opt" -> toptional \o tLt \o NameOf(alias, Tail(t)) \o tGt
      [] t[1] = "ptr" -> NameOf(alias, Tail(t))       \* metadata names the pointee
      [] OTHER -> ScalarName(alias, t[1])

Shown(subs) == CText(Join(subs, tSpace))

GenericError(alias, t, subs, details) ==
    tUnable \o Shown(subs) \o tToType \o NameOf(alias, t) \o
        (IF details = <<>> THEN tQuote ELSE tQuoteColon \o CText(details))
SubvalueError(alias, t, subs, n) ==
    GenericError(alias, t, subs, tExpectedSub \o NatText(n) \o tSubGot \o NatText(Len(subs)))

(***************************************************************************)
(* Conversion.                                                             *)
(***************************************************************************)
Good(v) == [ok |-> TRUE, v |-> v]
Bad(e) == [ok |-> FALSE, e |-> e]

ColorNames == << <<114, 101, 100>>, <<103, 114, 101, 101, 110>>, <<98, 108, 117, 101>> >>   \* red green blue

BoolOf(s) == IF s = <<49>> \/ Lower(s) = tTrue THEN <<tTrue>>
             ELSE IF s = <<48>> \/ Lower(s) = tFalse THEN <<tFalse>> ELSE <<>>

RECURSIVE Conv(_, _, _)
Conv(alias, t, subs) ==
    LET k == t[1] one == Len(subs) = 1 IN
    CASE k \in IntTypes ->
            IF ~one THEN Bad(SubvalueError(alias, t, subs, 1))
            ELSE LET p == ParseInt(k, subs[1])
                 IN  IF p.ok THEN Good(p.v) ELSE Bad(GenericError(alias, t, subs, <<>>))
      [] k \in FloatTypes ->
            IF ~one THEN Bad(SubvalueError(alias, t, subs, 1))
            ELSE IF FloatClass(k, subs[1]) = "fixed" THEN Good(ParseDecimal(subs[1]).v)
                 ELSE Bad(GenericError(alias, t, subs, <<>>))
      [] k = "bool" ->
            IF ~one THEN Bad(SubvalueError(alias, t, subs, 1))
            ELSE LET b == BoolOf(subs[1])
                 IN  IF b # <<>> THEN Good(b[1]) ELSE Bad(GenericError(alias, t, subs, <<>>))
      [] k \in {"string", "sview", "stdstr", "stdview", "bomb"} ->
            IF ~one THEN Bad(SubvalueError(alias, t, subs, 1)) ELSE Good(subs[1])
      [] k = "value" -> Good(subs)
      [] k = "color" ->      \* user-defined, enum-like
            IF ~one THEN Bad(SubvalueError(alias, t, subs, 1))
            ELSE IF \E i \in 1..3 : ColorNames[i] = subs[1] THEN Good(subs[1])
            ELSE Bad(GenericError(alias, t, subs, tBadEnum))
      [] k = "point" ->      \* user-defined, two subvalues
            IF Len(subs) # 2 THEN Bad(SubvalueError(alias, t, subs, 2))
            ELSE LET x == ParseInt("int", subs[1]) y == ParseInt("int", subs[2])
                 IN  IF x.ok /\ y.ok THEN Good(<<x.v, y.v>>) ELSE Bad(GenericError(alias, t, subs, tBadPt))
      [] k = "vec" ->
            LET el == [i \in 1..Len(subs) |-> Conv(alias, Tail(t), <<subs[i]>>)]
                bad == { i \in 1..Len(subs) : ~el[i].ok }
            IN  IF bad = {} THEN Good([i \in 1..Len(subs) |-> el[i].v])
                ELSE Bad(GenericError(alias, t, subs, el[CHOOSE i \in bad : \A j \in bad : i <= j].e))
      [] k = "opt" ->
            IF subs = <<>> \/ (one /\ subs[1] = <<>>) THEN Good(<<>>)
            ELSE LET r == Conv(alias, Tail(t), subs)
                 IN  IF r.ok THEN Good(<<r.v>>) ELSE Bad(GenericError(alias, t, subs, r.e))

\* The exception [k, s] a user's conversion leaves with, if any: texts that begin with ! or ?, of the type "bomb".
Fuse(s) == IF s # <<>> /\ Head(s) = 33 THEN <<[k |-> "std", s |-> CText(Tail(s))]>>
           ELSE IF s # <<>> /\ Head(s) = 63 THEN <<[k |-> "foreign", s |-> Tail(s)]>> ELSE <<>>
First(ss) == LET hit == { i \in 1..Len(ss) : ss[i] # <<>> } IN
             IF hit = {} THEN <<>> ELSE ss[CHOOSE i \in hit : \A j \in hit : i <= j]
RECURSIVE Explodes(_, _)
Explodes(t, subs) ==
    CASE t[1] = "bomb" -> IF Len(subs) = 1 THEN Fuse(subs[1]) ELSE <<>>
      [] t[1] = "vec" -> IF t[Len(t)] = "bomb" THEN First([i \in 1..Len(subs) |-> Explodes(Tail(t), <<subs[i]>>)]) ELSE <<>>
      [] t[1] = "opt" -> IF subs = <<>> \/ (Len(subs) = 1 /\ subs[1] = <<>>) THEN <<>> ELSE Explodes(Tail(t), subs)
      [] OTHER -> <<>>
\* The exception a user's rendering leaves with.
RECURSIVE RenderExplodes(_, _)
RenderExplodes(t, v) ==
    CASE t[1] = "bomb" -> Fuse(v)
      [] t[1] \in {"vec", "opt", "ptr"} /\ t[Len(t)] = "bomb" -> First([i \in 1..Len(v) |-> RenderExplodes(Tail(t), v[i])])
      [] OTHER -> <<>>

\* Does the specification fix the outcome of converting this argument?
RECURSIVE Fixed(_, _)
Fixed(t, subs) ==
    CASE t[1] \in FloatTypes -> \A i \in 1..Len(subs) : FloatClass(t[1], subs[i]) # "open"
      [] t[1] = "vec" -> \A i \in 1..Len(subs) : Fixed(Tail(t), <<subs[i]>>)
      [] t[1] = "opt" -> Fixed(Tail(t), subs)
      [] OTHER -> TRUE

(***************************************************************************)
(* Rendering.                                                              *)
(***************************************************************************)
RECURSIVE Render(_, _)
Render(t, v) ==
    CASE t[1] \in FloatTypes -> IF Tiny(v) THEN <<48>> ELSE GText(v, 6)
      [] t[1] = "value" -> Join(v, tSpace)
      [] t[1] = "point" -> tLt \o v[1] \o tComma \o v[2] \o tGt
      [] t[1] = "vec" -> tLBr \o Join([i \in 1..Len(v) |-> Render(Tail(t), v[i])], tComma) \o tRBr
      [] t[1] = "opt" -> IF v = <<>> THEN <<>> ELSE Render(Tail(t), v[1])
      [] t[1] = "ptr" -> IF v = <<>> THEN tNull ELSE Render(Tail(t), v[1])
      [] t[1] = "cstr" -> IF v = <<>> THEN tNull ELSE CText(v[1])
      [] OTHER -> v

\* Is the rendering of this value independent of binary rounding?
RECURSIVE RenderFixed(_, _)
RenderFixed(t, v) ==
    CASE t[1] \in FloatTypes -> SafeRound(v, 6) /\ ((t[1] = "double" /\ v.d = <<49>>) \/ ~NearTiny(v))
      [] t[1] \in {"vec", "opt", "ptr"} -> \A i \in 1..Len(v) : RenderFixed(Tail(t), v[i])
      [] OTHER -> TRUE

\* How a driver shows a received value: floating-point numbers with the type's precision.
RECURSIVE Show(_, _)
Show(t, v) ==
    CASE t[1] \in FloatTypes -> GText(v, Precision(t[1]))
      [] t[1] \in {"vec", "opt", "ptr"} -> [i \in 1..Len(v) |-> Show(Tail(t), v[i])]
      [] OTHER -> v
RECURSIVE ShowFixed(_, _)
ShowFixed(t, v) ==
    CASE t[1] \in FloatTypes -> Len(v.d) <= Precision(t[1])
      [] t[1] \in {"vec", "opt", "ptr"} -> \A i \in 1..Len(v) : ShowFixed(Tail(t), v[i])
      [] OTHER -> TRUE

\* Types whose rendered text is itself an argument with the same value.
RECURSIVE RoundTrips(_)
RoundTrips(t) ==
    CASE t[1] = "opt" -> RoundTrips(Tail(t)) /\ t[2] \notin {"string", "sview", "stdstr", "stdview", "opt"}
      [] OTHER -> t[1] \notin FloatTypes \cup {"vec", "value", "point"}
====
