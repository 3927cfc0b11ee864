SPECIFICATION Spec
INVARIANTS AcceptsDeterministic AcceptsReordering Totals
CHECK_DEADLOCK FALSE
