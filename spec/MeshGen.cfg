SPECIFICATION Spec
CONSTANT Present <- PresentQuick
CONSTANT MaxDiag = 1
INVARIANT Inv
CHECK_DEADLOCK FALSE
