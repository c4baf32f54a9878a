INIT Init
NEXT Next
VIEW Key
CHECK_DEADLOCK FALSE
