SPECIFICATION Spec
CONSTANTS Sizes = {4, 9, 12, 23}
          MaxBufs = 4
INVARIANTS Counted BigEnough Partition Reuse
CHECK_DEADLOCK FALSE
