SPECIFICATION Spec
CONSTANTS
  NQ = 2
  MaxOps = 4
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Transparent
INVARIANT Fresh
CHECK_DEADLOCK FALSE
