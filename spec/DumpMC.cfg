SPECIFICATION Spec
INVARIANT Exact
INVARIANT HexSame
INVARIANT SpoiltRefused
INVARIANT CutReported
INVARIANT ForgedRefused
INVARIANT Kept
INVARIANT Emit
CHECK_DEADLOCK FALSE
