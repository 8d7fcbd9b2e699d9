SPECIFICATION Spec
INVARIANT Order
INVARIANT Unknown
INVARIANT Options
INVARIANT Monotone
INVARIANT All4
INVARIANT Emit
CHECK_DEADLOCK FALSE
