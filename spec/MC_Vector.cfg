CONSTANTS
  Slots <- MSlots
INIT Init
NEXT Next
VIEW View
INVARIANTS RoomEnough Bounded
CHECK_DEADLOCK FALSE
