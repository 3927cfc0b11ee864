SPECIFICATION Spec
INVARIANTS SplitInvariance FactorsPsd MatrixProperties
CHECK_DEADLOCK FALSE
