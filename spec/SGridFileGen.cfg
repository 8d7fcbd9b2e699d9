CONSTANTS Sizes <- SzQ
 Deep = FALSE
SPECIFICATION Spec
INVARIANT PerCell
INVARIANT Apart
INVARIANT Between
INVARIANT Emit
CHECK_DEADLOCK FALSE
