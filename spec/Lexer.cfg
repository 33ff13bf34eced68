SPECIFICATION Spec
INVARIANT Munch
INVARIANT Report
CHECK_DEADLOCK FALSE
