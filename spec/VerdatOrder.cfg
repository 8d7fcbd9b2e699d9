CONSTANTS N = 5
 MaxSegs = 5
SPECIFICATION Spec
INVARIANT Right Kept Emit
CHECK_DEADLOCK FALSE
