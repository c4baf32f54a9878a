INIT Init
NEXT Next
VIEW Key
INVARIANTS Carries Silent
CHECK_DEADLOCK FALSE
