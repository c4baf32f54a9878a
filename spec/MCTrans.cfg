INIT Init
NEXT Next
VIEW Key
INVARIANTS Follows Holds Arrives Inside
CHECK_DEADLOCK FALSE
