SPECIFICATION Spec
CONSTANT Present <- PresentDeep
CONSTANT MaxDiag = 1
INVARIANT Inv
CHECK_DEADLOCK FALSE
