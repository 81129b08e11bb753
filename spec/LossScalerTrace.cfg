SPECIFICATION Spec
CONSTRAINT Track
POSTCONDITION Report
CHECK_DEADLOCK FALSE
