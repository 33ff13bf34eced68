SPECIFICATION Spec
INVARIANT TypeOK
INVARIANT Report
PROPERTY Same
CHECK_DEADLOCK FALSE
