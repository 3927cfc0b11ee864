SPECIFICATION Spec
INVARIANTS Current Together Born
CHECK_DEADLOCK FALSE
