INIT Init
NEXT Next
VIEW Key
INVARIANTS Lexical
CHECK_DEADLOCK FALSE
