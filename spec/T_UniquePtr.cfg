CONSTANTS
  Slots <- TSlots
INIT Init
NEXT Next
VIEW Position
INVARIANTS OwnedOnce GoneForGood
