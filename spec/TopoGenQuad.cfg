SPECIFICATION Spec
CONSTANTS
  N = 6
  MaxF = 2
  NV = 4
INVARIANT Inv
CHECK_DEADLOCK FALSE
