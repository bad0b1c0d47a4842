SPECIFICATION Spec
CONSTANTS N = 3
 MaxJump = 18
INVARIANTS Refines Ordered
CHECK_DEADLOCK FALSE
