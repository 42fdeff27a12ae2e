CONSTANTS
  Slots <- MSlots
INIT Init
NEXT Next
VIEW View
INVARIANTS Bounded TerminatorFits
CHECK_DEADLOCK FALSE
