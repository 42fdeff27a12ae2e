SPECIFICATION Spec
INVARIANTS PartsAreTexts ShownText Padding TextOfValue
CHECK_DEADLOCK FALSE
