SPECIFICATION Spec
CONSTANTS
  Clock = {0, 1, 900, 1000, 3600, 7200, 10000}
  MaxLen = 5
INVARIANT EmitInv
CHECK_DEADLOCK FALSE
