SPECIFICATION Spec
CONSTANTS
  N = 6
  MaxF = 4
  NV = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE
