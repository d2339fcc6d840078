SPECIFICATION Spec
INVARIANT Inv
VIEW SmallView
CHECK_DEADLOCK FALSE
