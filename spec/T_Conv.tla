---- MODULE T_Conv ----
(***************************************************************************)
(* Observations of conversions and renderings, checked against CoilConv.   *)
(* One observation: type t, subvalues s, and what the code did with them   *)
(* through Value::get, a named argument, and commands echoing the argument *)
(* by value, reference and pointer.                                        *)
(***************************************************************************)
EXTENDS CoilConv, Json, IOUtils, TLC

Block(b) == ndJsonDeserialize(IOEnv.VH_BLOCKS \o "/" \o ToString(b))

\* o = [ok, v] / [ok, e]: a conversion seen through some interface
SameConv(t, c, o) ==
    /\ o.ok = c.ok
    /\ IF c.ok THEN ShowFixed(t, c.v) => o.v = Show(t, c.v) ELSE o.e = c.e

\* An execution that echoes its argument: calls c (received values), errors e, return value r (at most one).
SameEcho(t, c, o) ==
    IF c.ok THEN
        /\ Len(o.c) = 1
        /\ ShowFixed(t, c.v) => o.c[1] = Show(t, c.v)
        /\ o.e = <<>>
        /\ Len(o.r) = 1
        /\ RenderFixed(t, c.v) => o.r[1] = Render(t, c.v)
    ELSE o.c = <<>> /\ o.e = <<c.e>> /\ o.r = <<>>

Echoes(r) == <<r.echo, r.ref, r.cref, r.ptr, r.cptr, r.var, r.prop>>

OkTyped(r) ==
    LET c == Conv(r.al, r.t, r.s)
        name == NameOf(r.al, r.t)
    IN
      /\ Fixed(r.t, r.s) =>
           /\ \A i \in 1..7 : SameEcho(r.t, c, Echoes(r)[i])
           /\ "get" \in DOMAIN r => SameConv(r.t, c, r.get)
           /\ "named" \in DOMAIN r => SameConv(r.t, c, r.named)
           \* rendering a value which was not made by coil's conversion
           /\ c.ok /\ RenderFixed(r.t, c.v) => r.ts = <<Render(r.t, c.v)>>
           \* converting a rendered value gives the value back
           /\ c.ok /\ "rt" \in DOMAIN r /\ RoundTrips(r.t) => r.rt = TRUE
      \* the name of the type: TypeName, the parameter, the results
      /\ \A i \in 1..Len(r.names) : r.names[i] = name
      \* null pointers
      /\ r.nulls = <<[c |-> <<>>, e |-> <<>>, r |-> <<tNull>>], [c |-> <<>>, e |-> <<>>, r |-> <<tNull>>]>>

\* C strings end at their first NUL; a callable without a result yields none.
Plain(res) == [c |-> <<>>, e |-> <<>>, r |-> res]
OkCString(r) ==
    LET text == IF r.s = <<>> THEN <<>> ELSE CText(r.s[1]) IN
      /\ r.lit = Plain(<<text>>)
      /\ r.null = Plain(<<tNull>>)
      /\ r.void = Plain(<<>>)
      /\ r.logged = Plain(<<>>) /\ r.out = text
      /\ r.ts = <<text, tNull>>

Ok(r) == r.how = "ok" /\ IF r.t = <<"cstr">> THEN OkCString(r) ELSE OkTyped(r)

VARIABLES pos, good
INSTANCE Records WITH NBlocks <- atoi(IOEnv.VH_NBLOCKS), ReadBlock <- Block, OkRec <- Ok
====
