INIT Init
NEXT Next
VIEW Key
INVARIANTS Shows
CHECK_DEADLOCK FALSE
