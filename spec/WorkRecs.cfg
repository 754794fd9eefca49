SPECIFICATION RecSpec
CHECK_DEADLOCK FALSE
