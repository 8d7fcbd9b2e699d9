CONSTANTS Sizes <- SzD
 Deep = TRUE
SPECIFICATION Spec
INVARIANT PerCell
INVARIANT Apart
INVARIANT Between
INVARIANT Emit
CHECK_DEADLOCK FALSE
