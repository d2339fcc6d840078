SPECIFICATION Spec
INVARIANT Inv
INVARIANT Emit
INVARIANT FileList
CHECK_DEADLOCK FALSE
