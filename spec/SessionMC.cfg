SPECIFICATION Spec
INVARIANT Inv
INVARIANT Emit
INVARIANT EmitFiles
CHECK_DEADLOCK FALSE
