SPECIFICATION Spec
CONSTANTS
  Alphabet = {48, 49, 57, 50, 43, 45, 46, 101, 32}
  MaxLen = 6
INVARIANTS IntsAgree Widening RoundTrip FloatAgree Compound
CHECK_DEADLOCK FALSE
