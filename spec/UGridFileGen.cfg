CONSTANTS MaxRows = 6
 MaxN = 7
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
