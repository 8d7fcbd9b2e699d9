SPECIFICATION Spec
INVARIANT Seamless
INVARIANT Recorded
INVARIANT Steady
INVARIANT Flat
INVARIANT Same
INVARIANT Guarded
INVARIANT Emit
CHECK_DEADLOCK FALSE
