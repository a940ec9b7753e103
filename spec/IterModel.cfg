SPECIFICATION Spec
CONSTANT MaxN = 4
INVARIANTS Steps AllOf TokensOf SplitOf
PROPERTY Ends
CHECK_DEADLOCK FALSE
