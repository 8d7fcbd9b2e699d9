CONSTANTS MaxOps = 7
 Slots = {1, 2}
 Files = {"a", "b"}
 VarNames = {"p"}
SPECIFICATION Spec
INVARIANT NoStrays
PROPERTY FilesStay SlotsStay SaveKeeps ReadsBack
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
