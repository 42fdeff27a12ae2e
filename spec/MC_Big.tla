---- MODULE MC_Big ----
(***************************************************************************)
(* CoilBig says the same as the rest of the specification: operations on   *)
(* runs are those on sequences and functions, step by step over all short  *)
(* histories, and whatever is extrapolated from B and B + 1 repetitions is *)
(* what CoilLexer and CoilConv say of so many.                             *)
(***************************************************************************)
EXTENDS CoilBig, Json, IOUtils

Deep == IOEnv.VH_DEEP = "1"
MaxLen == IF Deep THEN 6 ELSE 5

VARIABLE w

Texts(S, n) == UNION { [1..i -> S] : i \in 0..n }

(***************************************************************************)
(* Sequences and tables.                                                   *)
(***************************************************************************)
\* What CoilVector and CoilString say the operations are, on the sequences themselves.
Part(s, off, n) == SubSeq(s, off + 1, Min2(off + n, Len(s)))
Plain(v, o) ==
    CASE o.o \in {"push", "addt", "addz"} -> [v EXCEPT ![o.d] = @ \o [i \in 1..o.n |-> o.x]]
      [] o.o = "adds"   -> [v EXCEPT ![o.d] = @ \o v[o.s]]
      [] o.o = "addp"   -> [v EXCEPT ![o.d] = @ \o Part(v[o.s], o.lo, o.n)]
      [] o.o = "plus"   -> [v EXCEPT ![o.d] = v[o.s] \o @]
      [] o.o = "pop"    -> [v EXCEPT ![o.d] = SubSeq(@, 1, Len(@) - o.n)]
      [] o.o = "resize" -> [v EXCEPT ![o.d] = [i \in 1..o.n |-> IF i <= Len(@) THEN @[i] ELSE o.x]]
      [] o.o = "clear"  -> [v EXCEPT ![o.d] = <<>>]
      [] o.o = "copy"   -> [v EXCEPT ![o.d] = v[o.s]]
      [] o.o = "move"   -> [v EXCEPT ![o.d] = v[o.s], ![o.s] = <<>>]
      [] o.o = "part"   -> [v EXCEPT ![o.d] = Part(v[o.s], o.lo, o.n)]
Op(o, d, s, x, lo, n) == [o |-> o, d |-> d, s |-> s, x |-> x, lo |-> lo, n |-> n]
SeqOps(v) ==
    { Op(o, d, 3 - d, x, 0, n) : o \in {"push", "resize"}, d \in 1..2, x \in {0, 97}, n \in 0..3 }
    \cup { Op("pop", d, 1, 0, 0, n) : d \in 1..2, n \in 0..3 }
    \cup { Op(o, d, s, 0, lo, n) : o \in {"part", "addp"}, d \in 1..2, s \in 1..2, lo \in 0..2, n \in 0..3 }
    \cup { Op(o, d, s, 0, 0, 0) : o \in {"adds", "plus", "copy"}, d \in 1..2, s \in 1..2 }
    \cup { Op(o, d, 3 - d, 0, 0, 0) : o \in {"clear", "move"}, d \in 1..2 }
SeqLegal(v, o) == /\ o.o = "pop" => o.n <= Len(v[o.d])
                  /\ \A k \in 1..2 : Len(Plain(v, o)[k]) <= MaxLen
                  /\ o.o \in {"part", "addp"} => o.lo <= Len(v[o.s])
SeqNext == /\ w.k = "seq"
           /\ \E o \in SeqOps(w.v) : SeqLegal(w.v, o) /\ w' = [k |-> "seq", st |-> SeqStep([v |-> w.st, c |-> <<0, 0>>], o).v, v |-> Plain(w.v, o)]

Size == IF Deep THEN 5 ELSE 4
Table(f, o) ==
    CASE o.o = "set"   -> [f EXCEPT ![o.d] = [i \in 0..Size - 1 |-> IF i >= o.lo /\ i < o.lo + o.n THEN o.x ELSE @[i]]]
      [] o.o = "erase" -> [f EXCEPT ![o.d] = [i \in 0..Size - 1 |-> IF i >= o.lo /\ i < o.lo + o.n THEN 0 ELSE @[i]]]
      [] o.o = "clear" -> [f EXCEPT ![o.d] = [i \in 0..Size - 1 |-> 0]]
      [] o.o = "copy"  -> [f EXCEPT ![o.d] = f[o.s]]
      [] o.o = "move"  -> [f EXCEPT ![o.d] = f[o.s], ![o.s] = [i \in 0..Size - 1 |-> 0]]
MapOps == { Op(o, d, 3 - d, x, lo, n) : o \in {"set", "erase"}, d \in 1..2, x \in {1, 2}, lo \in 0..Size - 1, n \in 0..Size }
          \cup { Op(o, d, 3 - d, 0, 0, 0) : o \in {"clear", "copy", "move"}, d \in 1..2 }
MapNext == /\ w.k = "map"
           /\ \E o \in MapOps : o.lo + o.n <= Size /\ w' = [k |-> "map", st |-> MapStep(Size, w.st, o), v |-> Table(w.v, o)]

SameSeq(runs, v) == /\ Normal(runs) /\ Expand(runs) = v /\ RLen(runs) = Len(v) /\ Rle(v) = runs
                    /\ Expand(RCText(runs)) = CText(v)
SameTable(runs, f) == /\ Normal(runs) /\ Expand(runs) = [i \in 1..Size |-> f[i - 1]]
                      /\ RCount(runs) = Cardinality({ i \in 0..Size - 1 : f[i] # 0 })
Sequences == /\ w.k = "seq" => (\A k \in 1..2 : SameSeq(w.st[k], w.v[k])) /\ (w.st[1] = w.st[2]) = (w.v[1] = w.v[2])
             /\ w.k = "map" => \A k \in 1..2 : SameTable(w.st[k], w.v[k])

(***************************************************************************)
(* Pumping.                                                                *)
(***************************************************************************)
Alphabet == {97, 32, 61, 39, 40, 44}
\* (what alternates is not extrapolated)
Steady(u) == \A c \in {39, 40} : Cardinality({ i \in 1..Len(u) : u[i] = c }) % 2 = 0
Units(n) == { u \in Texts(Alphabet, n) : u # <<>> /\ Steady(u) }
Ends(n) == Texts(Alphabet, n)
Around(n) == { [p |-> p, s |-> s] : p \in Ends(n) \cup { <<97, 32>> \o e : e \in Ends(n) }, s \in Ends(n) }
Starts == { [k |-> "unit", unit |-> u, n |-> 1] : u \in Units(IF Deep THEN 3 ELSE 2) }
          \cup { [k |-> "unit", unit |-> u, n |-> 2] : u \in IF Deep THEN Units(2) ELSE {} }
LexNext == /\ w.k = "unit"
           /\ \E a \in Around(w.n) : w' = [k |-> "lex", pre |-> a.p, unit |-> w.unit, suf |-> a.s]
Pumped ==
    w.k = "lex" =>
        LET cfg == DefaultCfg a == ParseAt(cfg, w.pre, w.unit, B, w.suf) b == ParseAt(cfg, w.pre, w.unit, B + 1, w.suf) IN
        \A n \in {B, B + 1, B + 2, B + 5} : LET c == ParseAt(cfg, w.pre, w.unit, n, w.suf) IN
            Alike(a, b) => Extrapolate(a, b, n) = c

Subs == { <<>>, <<49>>, <<120>>, <<55, 55>>, <<32>> }
Types == { <<"vec", "int">>, <<"vec", "stdstr">>, <<"int">>, <<"stdstr">>, <<"opt", "int">>, <<"value">>, <<"bool">>, <<"point">>, <<"vec", "uchar">>, <<"double">> }
ListNext == /\ w.k = "list"
            /\ \E p \in Texts(Subs, 1), s \in Texts(Subs, 1) :
                 w' = [k |-> "conv", ty |-> w.ty, many |-> TRUE, pre |-> p, unit |-> w.unit, suf |-> s]
\* (many digits of a floating-point number are not the same number of digits of the value)
TextNext == /\ w.k = "text"
            /\ \E p \in Texts({49, 32, 45}, 1), s \in Texts({49, 32, 120}, 1) :
                 /\ w.ty = <<"double">> => w.unit # <<57>> /\ (w.unit = <<48>> => p # <<49>>)
                 /\ w' = [k |-> "conv", ty |-> w.ty, many |-> FALSE, pre |-> p, unit |-> w.unit, suf |-> s]
\* a head and pieces of any lengths: what is extrapolated is right, or is not alike
Offsets == {<<1, 1>>, <<1, 2>>, <<20, 2>>, <<3, 4>>}
PumpedConv ==
    w.k = "conv" =>
        \A o \in Offsets :
        LET r == w @@ [roff |-> o[1], rper |-> o[2], eoff |-> o[1], eper |-> o[2]]
            a == ConvAt(r, B) b == ConvAt(r, B + 1) IN
        \A n \in {B, B + 1, B + 3} :
            LET c == ConvAt(r, n) IN
            a.ok = b.ok =>
                /\ c.ok = a.ok
                /\ (a.ok /\ ATexts(a.c, b.c) /\ AText(a.r, b.r)) => PTexts(a.c, b.c, n) = c.c /\ PText(a.r, b.r, n) = c.r
                /\ (~a.ok /\ AText(a.e, b.e)) => PText(a.e, b.e, n) = c.e

\* VH_PARTS: the parts of it that are checked
Has(p) == p \in ToSet(ndJsonDeserialize(IOEnv.VH_PARTS))
Init == \/ Has("run") /\ w = [k |-> "seq", st |-> SeqInit.v, v |-> << <<>>, <<>> >>]
        \/ Has("run") /\ w = [k |-> "map", st |-> MapInit(Size), v |-> [i \in 1..2 |-> [j \in 0..Size - 1 |-> 0]]]
        \/ Has("lex") /\ w \in Starts
        \/ Has("conv") /\ w \in { [k |-> "list", ty |-> t, unit |-> u] : t \in Types, u \in Subs }
        \/ Has("conv") /\ w \in { [k |-> "text", ty |-> t, unit |-> <<u>>] : t \in Types, u \in {48, 57, 120, 32} }
Next == SeqNext \/ MapNext \/ LexNext \/ ListNext \/ TextNext
====
