SPECIFICATION Spec
CONSTANTS
  N = 6
  MaxF = 3
  NV = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE
