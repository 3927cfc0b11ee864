SPECIFICATION Spec
INVARIANT Inverts
CHECK_DEADLOCK FALSE
