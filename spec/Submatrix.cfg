SPECIFICATION Spec
INVARIANTS Defined AdjointCommutes
PROPERTY RejectedKeeps
CHECK_DEADLOCK FALSE
