SPECIFICATION Spec
CONSTANTS
  Queries = {"locate", "node", "face", "alphas", "nearest", "topo"}
  DropOnNodes = {"locate", "node", "face", "alphas", "nearest", "topo"}
  DropOnFaces = {"locate", "node", "face", "alphas", "nearest", "topo"}
  MaxOps = 4
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Current
CHECK_DEADLOCK FALSE
