CONSTANTS
  Slots <- MSlots
  CatchExc <- MCatch
  AliasNames = FALSE
INIT Init
NEXT Next
INVARIANTS OwnedOnce ResultsSane Finishes Alike
CHECK_DEADLOCK FALSE
