SPECIFICATION Spec
CONSTANT LevelSets <- LQuick
CONSTANT Hs <- HQuick
CONSTANT Zetas <- ZQuick
CONSTANT Hcs <- HcQuick
CONSTANT Which = {"L"}
INVARIANT Inv
CHECK_DEADLOCK FALSE
