SPECIFICATION Spec
CONSTANT Axes <- AxesQuick
INVARIANT Inv
CHECK_DEADLOCK FALSE
