SPECIFICATION Spec
CONSTANTS
  Items = {"i", "j", "k"}
  Drops = {"set", "del", "write"}
  Group = FALSE
  MaxOps = 6
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Current
CHECK_DEADLOCK FALSE
