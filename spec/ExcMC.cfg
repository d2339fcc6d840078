SPECIFICATION Spec
INVARIANT Inv
INVARIANT Emit
CHECK_DEADLOCK FALSE
