SPECIFICATION Spec
INVARIANT Keeps
INVARIANT Undone
INVARIANT Two
INVARIANT Free
INVARIANT Mirror
INVARIANT Level
INVARIANT Emit
CHECK_DEADLOCK FALSE
