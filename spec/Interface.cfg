SPECIFICATION Spec
INVARIANTS Unambiguous SameMap Columns Adjoint
CHECK_DEADLOCK FALSE
