CONSTANT P = "P23"
SPECIFICATION Spec
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
