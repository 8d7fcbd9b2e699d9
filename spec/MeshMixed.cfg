SPECIFICATION Spec
CONSTANT Present <- PresentMixed
CONSTANT MaxDiag = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE
