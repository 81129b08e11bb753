SPECIFICATION NSpec
CONSTRAINT Track
POSTCONDITION Report
CHECK_DEADLOCK FALSE
