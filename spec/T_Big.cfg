CONSTANT B = 40
SPECIFICATION RSpec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
