CONSTANTS
  Slots <- TSlots
  CatchExc <- TCatch
  AliasNames <- TAlias
INIT Init
NEXT Next
VIEW Position
INVARIANT OwnedOnce
INVARIANT LexersOwnedOnce
