CONSTANTS
  Slots <- MSlots
INIT Init
NEXT Next
VIEW View
INVARIANTS Typed Kinds
CHECK_DEADLOCK FALSE
