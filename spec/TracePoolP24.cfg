CONSTANT P = "P24"
SPECIFICATION Spec
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
