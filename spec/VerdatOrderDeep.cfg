CONSTANTS N = 6
 MaxSegs = 6
SPECIFICATION Spec
INVARIANT Right Kept Emit
CHECK_DEADLOCK FALSE
