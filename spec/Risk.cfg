SPECIFICATION Spec
INVARIANTS SplitInvariance GgnPsd LinearCase
CHECK_DEADLOCK FALSE
