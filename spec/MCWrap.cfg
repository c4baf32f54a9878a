INIT Init
NEXT Next
VIEW Key
INVARIANTS Consistent
CHECK_DEADLOCK FALSE
