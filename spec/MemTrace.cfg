SPECIFICATION TraceSpec
INVARIANT TypeOK
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
