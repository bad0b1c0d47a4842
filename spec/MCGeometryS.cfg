SPECIFICATION SpecS
CONSTANTS N = 2
 NG = 2
INVARIANTS Sizing Staggering
CHECK_DEADLOCK FALSE
