SPECIFICATION MoveSpec
CHECK_DEADLOCK FALSE
