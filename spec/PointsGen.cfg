SPECIFICATION Spec
INVARIANT Back
INVARIANT Again
INVARIANT Wrong
INVARIANT Emit
CHECK_DEADLOCK FALSE
