SPECIFICATION Spec
CONSTANTS Alphabet = {97, 98}
 MaxLen = 3
 Atomic = TRUE
 Leak = TRUE
INVARIANTS InBounds CapturesAreSpans Refines ResultShape Progress
CHECK_DEADLOCK FALSE
