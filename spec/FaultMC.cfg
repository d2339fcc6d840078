SPECIFICATION Spec
INVARIANT SignalRight
INVARIANT Explained
INVARIANT Emit
CHECK_DEADLOCK FALSE
