SPECIFICATION Spec
CONSTANT Axes <- AxesDeep
INVARIANT Inv
CHECK_DEADLOCK FALSE
