SPECIFICATION Spec
CONSTANTS
  N = 5
  MaxF = 3
  NV = 34
INVARIANT Inv
CHECK_DEADLOCK FALSE
