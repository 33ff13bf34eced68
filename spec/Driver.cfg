SPECIFICATION Spec
INVARIANT Commute
INVARIANT Idempotent
INVARIANT Report
PROPERTY Frame
CHECK_DEADLOCK FALSE
