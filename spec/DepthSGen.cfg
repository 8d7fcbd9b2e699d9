SPECIFICATION Spec
CONSTANT LevelSets <- LQuick
CONSTANT Hs <- HQuick
CONSTANT Zetas <- ZQuick
CONSTANT Hcs <- HcQuick
CONSTANT Which = {"S"}
INVARIANT Inv
CHECK_DEADLOCK FALSE
