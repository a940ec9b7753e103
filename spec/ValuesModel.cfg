SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Numbers Walks
