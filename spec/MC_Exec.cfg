CONSTANTS
  Slots <- MSlots
  CatchExc <- MCatch
  AliasNames <- MAlias
INIT Init
NEXT Next
VIEW View
INVARIANTS OwnedOnce LexersOwnedOnce ResultsSane
PROPERTIES IsolationM ResultsIndependent
CHECK_DEADLOCK FALSE
