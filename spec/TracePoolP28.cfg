CONSTANT P = "P28"
SPECIFICATION Spec
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
