---- MODULE T_Text ----
(***************************************************************************)
(* Observations of texts and values at the API's boundary, checked against *)
(* CoilText.                                                               *)
(***************************************************************************)
EXTENDS CoilText, Json, IOUtils, TLC

Block(b) == ndJsonDeserialize(IOEnv.VH_BLOCKS \o "/" \o ToString(b))

OkView(r) ==
    /\ r.len = Len(r.s) /\ r.slen = Len(r.s) /\ r.empty = (r.s = <<>>)
    /\ r.same /\ r.copysame /\ r.csame /\ r.strsame
    /\ r.all = r.s /\ r.idx = r.s /\ r.copy = r.s /\ r.asgn = r.s /\ r.str = r.s /\ r.stridx = r.s
    /\ r.c = CText(r.s) /\ r.def = <<>>
    /\ r.parts # <<>> /\ \A i \in 1..Len(r.parts) : r.parts[i].at = r.parts[i].o /\ r.parts[i].p = Part(r.s, r.parts[i].o, r.parts[i].n)
    /\ r.hash
OkPair(r) ==
    /\ r.vv = (r.a = r.b) /\ r.nvv = ~r.vv /\ r.ss = r.vv /\ r.sv = r.vv
    /\ r.sc = (r.a = CText(r.b)) /\ r.vc = r.sc /\ r.nvc = ~r.vc
    /\ r.back /\ r.hasheq
OkValue(r) ==
    /\ r.eq = (r.a = r.b) /\ r.ne = ~r.eq /\ r.back /\ r.self
    /\ r.str = ValueText(r.a) /\ r.ser = r.str
    /\ r.ceq /\ r.indep /\ r.moved = Append(r.a, <<109, 111, 114, 101>>) /\ r.asgn = r.a /\ r.vec = r.a
    /\ LET ka == FirstOf(r.a)  kb == FirstOf(r.b)  IN
         /\ r.nkey = (Named(ka, r.b) = Named(kb, r.b))
         /\ r.nval = (Named(ka, r.b) = Named(ka, r.a))
         /\ r.nboth /\ r.nn /\ r.conv
         /\ r.one = <<ka>> /\ r.cstr = <<CText(ka)>> /\ r.none = <<>>
OkStd(r) ==
    /\ \A x \in {r.tostr, r.tosv, r.fromstr, r.fromsv, r.view, r.strto, r.round} : x = r.s
    /\ r.svsame /\ r.viewsame /\ r.none = <<>> /\ r.snone = <<>> /\ r.term
OkStream(r) ==
    LET x == <<60>> \o Stream(r.s, r.w, r.fill, r.adj) \o <<62>> IN r.view = x /\ r.str = x
OkFormat(r) == LET x == Format(r.k, r.s, r.t, r.m, r.n) IN r.x = x /\ r.y = x /\ r.term
OkInput(r) ==
    /\ r.acopy = r.a /\ r.after = r.a /\ r.moved = r.a /\ r.massign = r.a /\ r.self = r.a /\ r.eq

Ok(r) ==
    r.how = "ok" /\
    CASE r.op = "view" -> OkView(r)
      [] r.op = "pair" -> OkPair(r)
      [] r.op = "value" -> OkValue(r)
      [] r.op = "std" -> OkStd(r)
      [] r.op = "stream" -> OkStream(r)
      [] r.op = "format" -> OkFormat(r)
      [] r.op = "input" -> OkInput(r)

VARIABLES pos, good
INSTANCE Records WITH NBlocks <- atoi(IOEnv.VH_NBLOCKS), ReadBlock <- Block, OkRec <- Ok
====
