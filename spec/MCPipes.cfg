INIT Init
NEXT Next
VIEW Key
INVARIANTS Laws
CHECK_DEADLOCK FALSE
