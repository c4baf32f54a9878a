INIT Init
NEXT Next
VIEW Key
INVARIANTS LastWins
CHECK_DEADLOCK FALSE
