CONSTANTS
  Slots <- MSlots
INIT Init
NEXT Next
VIEW View
INVARIANTS OwnedOnce GoneForGood AllAccounted
PROPERTY DestroyedOnce
CHECK_DEADLOCK FALSE
