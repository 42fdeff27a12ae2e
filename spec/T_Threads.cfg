CONSTANTS
  Slots <- HSlots
  CatchExc <- HCatch
  AliasNames <- HAlias
INIT Init
NEXT Next
VIEW Position
INVARIANT OwnedOnce
INVARIANT LexersOwnedOnce
