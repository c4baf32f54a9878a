INIT Init
NEXT Next
INVARIANTS Same Needed
CHECK_DEADLOCK FALSE
