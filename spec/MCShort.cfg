INIT Init
NEXT Next
VIEW Key
INVARIANTS Equal
CHECK_DEADLOCK FALSE
