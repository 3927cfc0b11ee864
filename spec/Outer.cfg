SPECIFICATION Spec
INVARIANTS Definition Products Projects
CHECK_DEADLOCK FALSE
