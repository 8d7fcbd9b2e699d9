SPECIFICATION Spec
CONSTANTS
  Shapes <- ShapesQuick
  Turns <- TurnsQuick
  Perts = {0, 1}
  Masks <- MaskKinds
INVARIANT Inv
