SPECIFICATION LinSpec
CONSTRAINT Track
POSTCONDITION Report
CHECK_DEADLOCK FALSE
