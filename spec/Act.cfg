SPECIFICATION Spec
INVARIANTS LastFeature Symmetric
CHECK_DEADLOCK FALSE
