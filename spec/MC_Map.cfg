CONSTANTS
  Slots <- MSlots
INIT Init
NEXT Next
VIEW View
INVARIANTS InItsChain Refines
CHECK_DEADLOCK FALSE
