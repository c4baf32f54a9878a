INIT Init
NEXT Next
INVARIANTS OnlyDeclared Nothing Invalid Lengths Resized
CHECK_DEADLOCK FALSE
