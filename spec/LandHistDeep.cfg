SPECIFICATION Spec
CONSTANTS
  NQ = 2
  MaxOps = 6
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Transparent
INVARIANT Fresh
CHECK_DEADLOCK FALSE
