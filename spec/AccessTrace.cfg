SPECIFICATION LookSpec
CHECK_DEADLOCK FALSE
