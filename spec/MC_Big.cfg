CONSTANT B = 4
INIT Init
NEXT Next
INVARIANT Sequences
INVARIANT Pumped
INVARIANT PumpedConv
CHECK_DEADLOCK FALSE
