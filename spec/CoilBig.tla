---- MODULE CoilBig ----
(***************************************************************************)
(* What the specification says about very large things: texts of 70 000    *)
(* bytes, 65 536 arguments, registries of 70 000 names.  Sequences are     *)
(* represented by their runs <<element, count>>, on which the operations   *)
(* of the containers and registries are defined again (MC_Big: they are    *)
(* the same operations); what is said of pre \o unit^n \o suf follows from *)
(* what CoilLexer and CoilConv say of two short ones (Pump; MC_Big).       *)
(***************************************************************************)
EXTENDS CoilLexer, CoilConv, TLC

(***************************************************************************)
(* Runs.                                                                   *)
(***************************************************************************)
RAdd(r, x, n) == IF n = 0 THEN r
                 ELSE IF r # <<>> /\ r[Len(r)][1] = x THEN [r EXCEPT ![Len(r)] = <<x, @[2] + n>>]
                 ELSE Append(r, <<x, n>>)
Rle(s) == FoldLeft(LAMBDA acc, x : RAdd(acc, x, 1), <<>>, s)
RLen(r) == FoldLeft(LAMBDA acc, x : acc + x[2], 0, r)
RCat(a, b) == FoldLeft(LAMBDA acc, x : RAdd(acc, x[1], x[2]), a, b)
Min2(a, b) == IF a < b THEN a ELSE b
RTake(r, n) == FoldLeft(LAMBDA acc, x : [r |-> RAdd(acc.r, x[1], Min2(x[2], acc.n)), n |-> acc.n - Min2(x[2], acc.n)], [r |-> <<>>, n |-> n], r).r
RDrop(r, n) == FoldLeft(LAMBDA acc, x : [r |-> RAdd(acc.r, x[1], x[2] - Min2(x[2], acc.n)), n |-> acc.n - Min2(x[2], acc.n)], [r |-> <<>>, n |-> n], r).r
RPart(r, off, n) == RTake(RDrop(r, off), n)
RSet(r, lo, n, x) == RCat(RAdd(RTake(r, lo), x, n), RDrop(r, lo + n))
RMap(F(_), r) == FoldLeft(LAMBDA acc, x : RAdd(acc, F(x[1]), x[2]), <<>>, r)
RCount(r) == FoldLeft(LAMBDA acc, x : acc + (IF x[1] = 0 THEN 0 ELSE x[2]), 0, r)     \* elements other than 0
RCText(r) == LET z == { i \in 1..Len(r) : r[i][1] = 0 } IN
             IF z = {} THEN r ELSE SubSeq(r, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)
Expand(r) == FoldLeft(LAMBDA acc, x : acc \o [i \in 1..x[2] |-> x[1]], <<>>, r)
Normal(r) == /\ \A i \in 1..Len(r) : r[i][2] > 0
             /\ \A i \in 1..Len(r) - 1 : r[i][1] # r[i + 1][1]

(***************************************************************************)
(* Containers in two slots.  v: contents, c: room that was asked for.      *)
(* An operation o: name o, slots d and s, element x, position lo, number n.*)
(***************************************************************************)
Max2(a, b) == IF a > b THEN a ELSE b
Put1(st, d, r) == [st EXCEPT !.v[d] = r, !.c[d] = Max2(@, RLen(r))]

SeqStep(st, o) ==
    LET r == st.v[o.d] len == RLen(r) IN
    CASE o.o = "push"    -> Put1(st, o.d, RAdd(r, o.x, o.n))            \* one by one, at once, as a C string
      [] o.o = "addt"    -> Put1(st, o.d, RAdd(r, o.x, o.n))
      [] o.o = "addz"    -> Put1(st, o.d, RAdd(r, o.x, o.n))
      [] o.o = "adds"    -> Put1(st, o.d, RCat(r, st.v[o.s]))           \* what is in a slot, or a part of it
      [] o.o = "addp"    -> Put1(st, o.d, RCat(r, RPart(st.v[o.s], o.lo, o.n)))
      [] o.o = "plus"    -> Put1([st EXCEPT !.c[o.d] = 0], o.d, RCat(st.v[o.s], r))
      [] o.o = "pop"     -> Put1(st, o.d, RTake(r, len - o.n))
      [] o.o = "resize"  -> Put1(st, o.d, IF o.n <= len THEN RTake(r, o.n) ELSE RAdd(r, o.x, o.n - len))
      [] o.o = "reserve" -> [st EXCEPT !.c[o.d] = Max2(@, o.n)]
      [] o.o = "clear"   -> Put1(st, o.d, <<>>)
      [] o.o = "copy"    -> [st EXCEPT !.v[o.d] = st.v[o.s], !.c[o.d] = RLen(st.v[o.s])]
      [] o.o = "move"    -> [v |-> [st.v EXCEPT ![o.d] = st.v[o.s], ![o.s] = <<>>],      \* (the source is emptied afterwards)
                             c |-> [st.c EXCEPT ![o.d] = st.c[o.s], ![o.s] = 0]]
      [] o.o = "part"    -> LET p == RPart(st.v[o.s], o.lo, o.n) IN [st EXCEPT !.v[o.d] = p, !.c[o.d] = RLen(p)]
SeqInit == [v |-> << <<>>, <<>> >>, c |-> <<0, 0>>]

\* Maps and registries of keys 0..size-1: the value of each key, 0 for none.
MapStep(size, st, o) ==
    LET none == << <<0, size>> >> IN
    CASE o.o = "set"   -> [st EXCEPT ![o.d] = RSet(@, o.lo, o.n, o.x)]
      [] o.o = "erase" -> [st EXCEPT ![o.d] = RSet(@, o.lo, o.n, 0)]
      [] o.o = "clear" -> [st EXCEPT ![o.d] = none]
      [] o.o = "copy"  -> [st EXCEPT ![o.d] = st[o.s]]
      [] o.o = "move"  -> [st EXCEPT ![o.d] = st[o.s], ![o.s] = none]
MapInit(size) == << << <<0, size>> >>, << <<0, size>> >> >>

After(Step(_, _), init, ops) == FoldLeft(LAMBDA acc, o : Append(acc, Step(acc[Len(acc)], o)), <<init>>, ops)

OkVector(r) ==
    LET st == After(SeqStep, SeqInit, r.ops) IN
    \A i \in 1..Len(r.ops) : LET x == st[i + 1] b == r.obs[i] IN
        /\ b.v = x.v
        /\ \A k \in 1..2 : b.n[k] = RLen(x.v[k]) /\ b.cap[k] >= x.c[k]
        /\ b.eq = (x.v[1] = x.v[2])

OkString(r) ==
    LET st == After(SeqStep, SeqInit, r.ops) IN
    \A i \in 1..Len(r.ops) : LET x == st[i + 1] b == r.obs[i] IN
        /\ b.v = x.v /\ b.vw = x.v
        /\ \A k \in 1..2 : b.n[k] = RLen(x.v[k]) /\ b.sl[k] = RLen(x.v[k]) /\ b.z[k] = RLen(RCText(x.v[k]))
        /\ b.eq = (x.v[1] = x.v[2])
        /\ b.eq => b.hq

OkMap(r) ==
    LET st == After(LAMBDA x, o : MapStep(r.size, x, o), MapInit(r.size), r.ops) IN
    \A i \in 1..Len(r.ops) : LET x == st[i + 1] b == r.obs[i] IN
        /\ b.v = x /\ b.it = x
        /\ \A k \in 1..2 : b.n[k] = RCount(x[k])

\* Names are shown as @ in the error texts.
Answer(x) == IF x = 0 THEN [e |-> <<tNoFunc \o <<64>> \o tNotReg>>, r |-> <<>>] ELSE [e |-> <<>>, r |-> <<NatText(x)>>]
Bound(x) == IF x = 0 THEN 0 ELSE 1
OkRegistry(r) ==
    LET st == After(LAMBDA x, o : MapStep(r.size, x, o), MapInit(r.size), r.ops) IN
    \A i \in 1..Len(r.ops) : LET x == st[i + 1] b == r.obs[i] IN
        /\ \A k \in 1..2 : b.have[k] = RMap(Bound, x[k]) /\ b.ex[k] = RMap(Answer, x[k])

(***************************************************************************)
(* Pumping: from what is said of B and B + 1 repetitions to n of them.     *)
(***************************************************************************)
CONSTANT B
\* a and b differ in how many of the same there are, only.
ARuns(A(_, _), a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : A(a[i][1], b[i][1])
ASame(a, b) == a = b
AText(a, b) == ARuns(ASame, a, b)
ATexts(a, b) == ARuns(AText, a, b)
AValues(a, b) == ARuns(ATexts, a, b)
ANamed(a, b) == ARuns(LAMBDA x, y : AText(x.k, y.k) /\ ATexts(x.v, y.v), a, b)
\* Then, how many of them there are for n repetitions.
Count(a, b, n) == a + (n - B) * (b - a)
PRuns(P(_, _, _), a, b, n) == [i \in 1..Len(a) |-> <<P(a[i][1], b[i][1], n), Count(a[i][2], b[i][2], n)>>]
PSame(a, b, n) == a
PText(a, b, n) == PRuns(PSame, a, b, n)
PTexts(a, b, n) == PRuns(PText, a, b, n)
PValues(a, b, n) == PRuns(PTexts, a, b, n)
PNamed(a, b, n) == PRuns(LAMBDA x, y, m : [k |-> PText(x.k, y.k, m), v |-> PTexts(x.v, y.v, m)], a, b, n)

ETexts(ts) == Rle([i \in 1..Len(ts) |-> Rle(ts[i])])
EValues(vs) == Rle([i \in 1..Len(vs) |-> ETexts(vs[i])])
ENamed(ks) == Rle([i \in 1..Len(ks) |-> [k |-> Rle(ks[i].k), v |-> ETexts(ks[i].v)]])
EParse(p) == IF p.ok THEN [ok |-> TRUE, n |-> Rle(p.name), a |-> EValues(p.args), k |-> ENamed(p.named)]
             ELSE [ok |-> FALSE, msg |-> Rle(p.msg)]

Rep(u, m) == [i \in 1..m * Len(u) |-> u[((i - 1) % Len(u)) + 1]]

ParseAt(cfg, pre, u, m, suf) == EParse(Parse(cfg, pre \o Rep(u, m) \o suf))
Alike(a, b) == /\ a.ok = b.ok
               /\ IF a.ok THEN AText(a.n, b.n) /\ AValues(a.a, b.a) /\ ANamed(a.k, b.k) ELSE AText(a.msg, b.msg)
Extrapolate(a, b, n) ==
    IF a.ok THEN [ok |-> TRUE, n |-> PText(a.n, b.n, n), a |-> PValues(a.a, b.a, n), k |-> PNamed(a.k, b.k, n)]
    ELSE [ok |-> FALSE, msg |-> PText(a.msg, b.msg, n)]

(***************************************************************************)
(* Executions of what was parsed, by a command with 0..MaxArity parameters. *)
(***************************************************************************)
MaxArity == 4
Arities == Join([i \in 1..MaxArity |-> NatText(i - 1)], tComma) \o tOr \o NatText(MaxArity)
OkLex(cfg, r) ==
    LET few == ParseAt(cfg, r.pre, r.unit, B, r.suf)
        more == ParseAt(cfg, r.pre, r.unit, B + 1, r.suf)
        p == Extrapolate(few, more, r.n)
        args == IF p.ok THEN RLen(p.a) ELSE 0
        errors == IF ~p.ok THEN << <<RCat(Rle(tSyntax), p.msg), 1>> >>
                  ELSE IF p.n = <<>> THEN << <<Rle(tNoName), 1>> >>
                  ELSE IF args > MaxArity THEN
                      << <<RCat(RCat(Rle(tWrongNum), RCText(p.n)), Rle(tExpected \o Arities \o tGot \o NatText(args))), 1>> >>
                  ELSE <<>>
        seen == IF p.ok THEN [n |-> p.n, a |-> p.a, k |-> p.k] ELSE [n |-> <<>>, a |-> <<>>, k |-> <<>>]
    IN /\ Alike(few, more)
       /\ r.p = p
       /\ [n |-> r.x.n, a |-> r.x.a, k |-> r.x.k] = seen
       /\ r.x.e = errors
       /\ r.x.c = (IF p.ok /\ p.n # <<>> /\ args <= MaxArity THEN <<[a |-> p.a, k |-> p.k]>> ELSE <<>>)
       /\ r.x.r = <<>> /\ r.x.o = <<>>

(***************************************************************************)
(* Conversions of one long text (r.many = FALSE) or of many subvalues.     *)
(* Texts are cut into a head of r.off bytes and pieces of r.per bytes.     *)
(***************************************************************************)
Chunks(s, off, per) ==
    LET h == Min2(off, Len(s)) t == SubSeq(s, h + 1, Len(s)) k == (Len(t) + per - 1) \div per IN
    Rle(<<SubSeq(s, 1, h)>> \o [i \in 1..k |-> SubSeq(t, (i - 1) * per + 1, Min2(i * per, Len(t)))])
\* The number of subvalues at the end of an error text is shown as @.
Marked(e, subs) ==
    LET tail == tSubGot \o NatText(Len(subs)) k == Len(e) - Len(tail) IN
    IF k >= 0 /\ SubSeq(e, k + 1, Len(e)) = tail THEN SubSeq(e, 1, k) \o tSubGot \o <<64>> ELSE e
ConvAt(r, m) ==
    LET subs == IF r.many THEN r.pre \o [i \in 1..m |-> r.unit] \o r.suf ELSE <<r.pre \o Rep(r.unit, m) \o r.suf>>
        c == Conv(FALSE, r.ty, subs)
        list == r.ty[1] \in {"vec", "opt", "value"}
    IN IF c.ok THEN [ok |-> TRUE, c |-> (LET s == Show(r.ty, c.v) IN ETexts(IF list THEN s ELSE <<s>>)), r |-> Chunks(Render(r.ty, c.v), r.roff, r.rper)]
       ELSE [ok |-> FALSE, e |-> Chunks(Marked(c.e, subs), r.eoff, r.eper)]
OkConv(r) ==
    LET a == ConvAt(r, B) b == ConvAt(r, B + 1) IN
    /\ a.ok = b.ok
    /\ IF a.ok THEN ATexts(a.c, b.c) /\ AText(a.r, b.r) ELSE AText(a.e, b.e)
    /\ \A i \in 1..Len(r.seen) : LET o == r.seen[i] IN      \* as an argument of a command, and by itself
       IF a.ok THEN /\ o.c = <<PTexts(a.c, b.c, r.n)>> /\ o.e = <<>>
                    /\ o.r = <<PText(a.r, b.r, r.n)>>
       ELSE /\ o.c = <<>> /\ o.r = <<>>
            /\ o.e = <<PText(a.e, b.e, r.n)>>

(***************************************************************************)
(* Commands that do something many times, or with something long.          *)
(***************************************************************************)
Fn == <<102>>   \* the name: f
OverError(m) == tWrongNum \o Fn \o tExpected \o Join([i \in 1..m |-> <<49>>], tComma) \o tOr \o <<50>> \o tGot \o <<48>>
OverOff == Len(tWrongNum \o Fn \o tExpected)
OkCommand(r) ==
    CASE r.w = "log" ->     \* logs u n times, with a new line each or without
            r.out = << <<r.u \o (IF r.nl THEN <<10>> ELSE <<>>), r.n>> >> /\ r.errs = <<>> /\ r.ret = <<NatText(7)>>
      [] r.w = "err" -> r.errs = << <<r.u, r.n>> >> /\ r.out = <<>> /\ r.ret = <<>>
      [] r.w = "long" ->    \* the text u, n times repeated, logged, returned, reported, in one piece
            LET t == << <<r.x, r.n>> >> nl == << <<10, 1>> >> IN
            /\ r.out = RCat(RCat(RCat(RCat(RCat(t, t), nl), t), t), nl)
            /\ r.errs = [i \in 1..(IF r.bad THEN 1 ELSE 0) |-> <<t, IF r.bad THEN 3 ELSE 0>>]
            /\ r.ret = (IF r.bad THEN <<>> ELSE <<t>>)
      [] r.w = "named" ->   \* n times k = v, then k2 = v2
            /\ r.size = r.n + 1
            /\ r.it = << <<[k |-> r.key, v |-> <<r.v>>], r.n>>, <<[k |-> r.key2, v |-> <<r.v2>>], 1>> >>
            /\ r.g1 = <<r.v>> /\ r.g2 = <<r.v2>> /\ r.g2s = <<r.v2>>
            /\ r.g0 = tMissing \o r.key0 \o tQuote
      [] r.w = "over" ->    \* n overloads for one argument, one for two; each returns its number
            /\ r.ars = << <<1, r.n>>, <<2, 1>> >>
            /\ r.got1 = <<NatText(1)>> /\ r.got2 = <<NatText(r.n + 1)>>
            /\ LET few == Chunks(OverError(B), OverOff, 3) more == Chunks(OverError(B + 1), OverOff, 3) IN
               AText(few, more) /\ r.e0 = PText(few, more, r.n)
      [] r.w = "exc" -> r.errs = << <<RCat(Rle(tExcColon), << <<r.x, r.n>> >>), 1>> >> /\ r.ret = <<>> /\ r.out = <<>>
      [] r.w = "name" ->    \* a command whose name is long; a name one shorter is not bound
            /\ r.nm = << <<r.x, r.n>> >> /\ r.ret = <<NatText(1)>> /\ r.errs = <<>>
            /\ r.in = << <<r.x, r.n>> >>
            /\ r.un = << <<RCat(RCat(Rle(tNoFunc), << <<r.x, r.n - 1>> >>), Rle(tNotReg)), 1>> >>
      [] r.w = "var" ->     \* a text variable and a property of text set, and read again
            \A i \in 1..4 : r.seen[i] = [e |-> <<>>, r |-> << << <<r.x, r.n>> >> >>]
      [] r.w = "calls" ->   \* one command executed n times; it returns how often it ran
            r.clean = r.n /\ r.last = <<NatText(r.n)>>
      [] r.w = "own" ->     \* n callables bound, all bound again, h removed, cleared: <<born, dead, copies>>
            r.life = << <<r.n, 0, 0>>, <<2 * r.n, r.n, 0>>, <<2 * r.n, r.n + r.h, 0>>, <<2 * r.n, 2 * r.n, 0>> >>
      [] r.w = "texts" ->   \* a text of n times x through everything that takes texts
            LET t == << <<r.x, r.n>> >> IN
            /\ \A i \in 1..Len(r.same) : r.same[i] = t
            /\ r.fmt = RCat(t, Rle(<<124>> \o NatText(r.n)))
            /\ r.pad = RAdd(<< <<32, r.n - 1>> >>, 55, 1)
            /\ r.wide = RCat(<< <<46, 10>> >>, t)
            /\ r.eq = <<TRUE, TRUE, TRUE, TRUE>> /\ r.ne = <<FALSE, FALSE, FALSE, FALSE>> /\ r.len = r.n

OkBig(cfgs, r) ==
    r.how = "ok" /\
    CASE r.t = "lex" -> OkLex(cfgs[r.c], r)
      [] r.t = "conv" -> OkConv(r)
      [] r.t = "cmd" -> OkCommand(r)
      [] r.t = "vec" -> OkVector(r)
      [] r.t = "str" -> OkString(r)
      [] r.t = "map" -> OkMap(r)
      [] r.t = "reg" -> OkRegistry(r)
====
