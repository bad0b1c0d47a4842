SPECIFICATION SpecW
CONSTANTS N = 4
 NG = 2
INVARIANTS Bijection Tiling
CHECK_DEADLOCK FALSE
