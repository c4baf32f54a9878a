INIT Init
NEXT Next
VIEW Key
INVARIANTS LooksAlone HearsAlone
CHECK_DEADLOCK FALSE
