SPECIFICATION Spec
CONSTANT Present <- PresentDeep
CONSTANT MaxDiag = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE
