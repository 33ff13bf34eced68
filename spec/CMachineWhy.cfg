SPECIFICATION Spec
INVARIANTS Progress Report
CHECK_DEADLOCK FALSE
