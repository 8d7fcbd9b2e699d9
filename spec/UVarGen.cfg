SPECIFICATION Spec
CONSTANTS
  Items = {"i", "j"}
  Drops = {"set", "del", "write"}
  Group = FALSE
  MaxOps = 5
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Current
CHECK_DEADLOCK FALSE
