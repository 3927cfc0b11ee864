SPECIFICATION Spec
INVARIANTS Untouched OnlyOwn SameAnswer Current Whole
CHECK_DEADLOCK FALSE
