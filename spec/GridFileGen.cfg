SPECIFICATION Spec
INVARIANT Asked
INVARIANT Order
INVARIANT Other
INVARIANT Named
INVARIANT Emit
CHECK_DEADLOCK FALSE
