SPECIFICATION Spec
CONSTANT LevelSets <- LDeep
CONSTANT Hs <- HDeep
CONSTANT Zetas <- ZDeep
CONSTANT Hcs <- HcDeep
CONSTANT Which = {"L"}
INVARIANT Inv
CHECK_DEADLOCK FALSE
