SPECIFICATION Spec
INVARIANT TypeOK
INVARIANT Report
CHECK_DEADLOCK FALSE
