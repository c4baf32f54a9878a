INIT Init
NEXT Next
VIEW Key
INVARIANTS Meaning
CHECK_DEADLOCK FALSE
