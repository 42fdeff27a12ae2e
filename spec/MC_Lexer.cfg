SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Alphabet = {97, 44, 61, 32, 40, 39, 34}
INVARIANTS Incremental OnlyFromText NothingLost QuotedVerbatim WhitespaceNeutral Compositional Accounting NoSilentTruncation GroupElements
CHECK_DEADLOCK FALSE
