SPECIFICATION Spec
INVARIANTS NoUnsupportedAnswer NoSupportedRejection
CHECK_DEADLOCK FALSE
