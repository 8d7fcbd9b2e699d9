SPECIFICATION Spec
CONSTANTS
  NQ = 2
  Opts = {"plain", "extrap", "unmask"}
  Changes = {"data", "time", "fill", "grid", "shift"}
  KeyedOn = {"data", "time", "fill", "grid", "shift"}
  Cap = 2
  MaxOps = 4
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Transparent
CHECK_DEADLOCK FALSE
