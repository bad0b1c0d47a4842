SPECIFICATION Spec
CONSTANTS
  Types = {"A", "B", "C"}
  Depth = 8
INVARIANTS Refines OneStore Owned Emit
CHECK_DEADLOCK FALSE
