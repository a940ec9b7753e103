SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Whole Found Categories Scripts Ages Assigned Ascii Blocks Derived
