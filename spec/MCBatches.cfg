CONSTANT Batches = TRUE
SPECIFICATION Spec
VIEW Key
CONSTRAINT Bound_
PROPERTIES C07_HoverFollows C07_EnterLeave C09_Focuses C11_Messages C12_Batched C13_Capture
CHECK_DEADLOCK FALSE
