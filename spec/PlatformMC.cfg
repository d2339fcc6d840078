SPECIFICATION Spec
INVARIANT Inv
INVARIANT Emit
INVARIANT EmitCrash
CHECK_DEADLOCK FALSE
