SPECIFICATION Spec
CONSTANTS
  Shapes <- ShapesDeep
  Turns <- TurnsDeep
  Perts = {0, 1, 2}
  Masks <- MaskKinds
INVARIANT Inv
