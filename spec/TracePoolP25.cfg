CONSTANT P = "P25"
SPECIFICATION Spec
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
