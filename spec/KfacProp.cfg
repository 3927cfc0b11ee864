SPECIFICATION Spec
INVARIANT MatrixProperties
PROPERTY Stable
CHECK_DEADLOCK FALSE
