SPECIFICATION Spec
INVARIANTS OrderFree Enough GridEnds
CHECK_DEADLOCK FALSE
