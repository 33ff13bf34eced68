SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Balanced ObjectsComplete
PROPERTIES Progress Monotone
