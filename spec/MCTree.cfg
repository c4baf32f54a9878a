INIT Init
NEXT Next
VIEW Key
INVARIANTS Stands
CHECK_DEADLOCK FALSE
