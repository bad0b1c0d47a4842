SPECIFICATION SpecG
CONSTANTS N = 2
 NG = 2
INVARIANTS GhostLaws
CHECK_DEADLOCK FALSE
