SPECIFICATION Spec
CONSTANTS
  Datas <- DatasQuick
  Offsets <- OffsetsQuick
  Disps <- DispsQuick
  Origins <- OriginsQuick
  MaxOps = 2
  Rich = FALSE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Inv
PROPERTY Isolation
CHECK_DEADLOCK FALSE
