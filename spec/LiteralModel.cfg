SPECIFICATION Spec
CONSTANT MaxN = 3
INVARIANTS ReadsBack Prefixes NeverBad OneText
CHECK_DEADLOCK FALSE
