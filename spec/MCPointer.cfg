CONSTANT Batches = FALSE
SPECIFICATION Spec
VIEW Key
CONSTRAINT Bound_
PROPERTIES C07_HoverFollows C07_EnterLeave C07_Moves C08_Presses C09_Focuses C09_Keyboards C10_Drags C11_Messages C12_InnerFirst C12_LeavesFirst C13_Capture
CHECK_DEADLOCK FALSE
