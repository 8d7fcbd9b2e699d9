SPECIFICATION Spec
INVARIANT Means
INVARIANT Optional
INVARIANT Hides
INVARIANT Unordered
INVARIANT Emit
CHECK_DEADLOCK FALSE
