SPECIFICATION Spec
CONSTANT LevelSets <- LDeep
CONSTANT Hs <- HDeep
CONSTANT Zetas <- ZDeep
CONSTANT Hcs <- HcDeep
CONSTANT Which = {"S"}
INVARIANT Inv
CHECK_DEADLOCK FALSE
