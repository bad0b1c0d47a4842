CONSTANT P = "P26"
SPECIFICATION Spec
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
