---- MODULE T_Big ----
\* Observations of very large things, checked against CoilBig.
EXTENDS CoilBig, Json, IOUtils

Block(b) == ndJsonDeserialize(IOEnv.VH_BLOCKS \o "/" \o ToString(b))
CfgList == ndJsonDeserialize(IOEnv.VH_CONFIGS)
Cfgs == [i \in 1..Len(CfgList) |->
            [groups |-> ToSet(CfgList[i].groups), quotes |-> ToSet(CfgList[i].quotes),
             seps |-> ToSet(CfgList[i].seps), spaces |-> ToSet(CfgList[i].spaces)]]
Ok(r) == OkBig(Cfgs, r)

VARIABLES pos, good
INSTANCE Records WITH NBlocks <- atoi(IOEnv.VH_NBLOCKS), ReadBlock <- Block, OkRec <- Ok
====
