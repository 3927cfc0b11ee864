SPECIFICATION Spec
INVARIANT Psd
INVARIANT Law
CHECK_DEADLOCK FALSE
