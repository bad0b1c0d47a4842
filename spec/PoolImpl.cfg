SPECIFICATION Spec
CONSTANTS Sizes = {4, 12, 23}
          MaxBufs = 3
INVARIANTS Counted BigEnough Partition Reuse
CHECK_DEADLOCK FALSE
