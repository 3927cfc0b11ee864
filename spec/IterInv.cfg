SPECIFICATION Spec
INVARIANTS Solves Telescopes
CHECK_DEADLOCK FALSE
