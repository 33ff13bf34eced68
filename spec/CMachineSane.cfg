SPECIFICATION Spec
INVARIANTS TypeOK ScopeOK DisjointOK Report
CHECK_DEADLOCK FALSE
