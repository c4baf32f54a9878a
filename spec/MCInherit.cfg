INIT Init
NEXT Next
VIEW Key
INVARIANTS Flows Texts
CHECK_DEADLOCK FALSE
