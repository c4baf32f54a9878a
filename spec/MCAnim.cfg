INIT Init
NEXT Next
VIEW Key
INVARIANTS Follows Ends Undeclared
CHECK_DEADLOCK FALSE
