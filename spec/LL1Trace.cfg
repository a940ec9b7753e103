SPECIFICATION Spec
CONSTANT NC = 5
CHECK_DEADLOCK FALSE
