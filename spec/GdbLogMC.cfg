SPECIFICATION Spec
INVARIANT Reproduced
INVARIANT Emit
CHECK_DEADLOCK FALSE
