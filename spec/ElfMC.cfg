SPECIFICATION Spec
INVARIANT LoadsExactly
INVARIANT RefusesMalformed
INVARIANT RefusalExplained
INVARIANT MemWellFormed
INVARIANT Emit
CHECK_DEADLOCK FALSE
