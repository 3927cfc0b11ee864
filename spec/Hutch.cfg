SPECIFICATION Spec
INVARIANTS Unbiased
CHECK_DEADLOCK FALSE
