SPECIFICATION Spec
INVARIANTS ResultsStable Complete RestoreEquivalent CacheFresh
CHECK_DEADLOCK FALSE
