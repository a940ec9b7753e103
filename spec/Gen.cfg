SPECIFICATION Spec
VIEW View
INVARIANTS ReadAsWritten GeneratedIsAccepted WaysAreDistinct EmitText
CHECK_DEADLOCK FALSE
