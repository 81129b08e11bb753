SPECIFICATION Spec
CONSTRAINT Track
POSTCONDITION Report
CHECK_DEADLOCK FALSE
CONSTANT Gap = 30
CONSTANT Tol = 100
