INIT Init
NEXT Next
VIEW Key
INVARIANTS Finds
CHECK_DEADLOCK FALSE
