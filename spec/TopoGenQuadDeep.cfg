SPECIFICATION Spec
CONSTANTS
  N = 6
  MaxF = 3
  NV = 4
INVARIANT Inv
CHECK_DEADLOCK FALSE
