SPECIFICATION FSpec
CHECK_DEADLOCK FALSE
