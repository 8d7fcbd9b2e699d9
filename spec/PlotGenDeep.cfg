SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANT Last
INVARIANT Counted
INVARIANT Fair
INVARIANT Seam
INVARIANT Box
INVARIANT Found
INVARIANT Emit
CHECK_DEADLOCK FALSE
