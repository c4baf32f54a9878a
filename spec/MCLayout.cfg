INIT Init
NEXT Next
VIEW Key
INVARIANTS Exact Widths Bounds Fills Stacks First Wraps Distances Composed
CHECK_DEADLOCK FALSE
