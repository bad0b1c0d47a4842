SPECIFICATION Spec
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
