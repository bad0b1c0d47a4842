SPECIFICATION Spec
CONSTANTS Sizes = {1, 2}
          Resizers = {1, 2}
          Limits = {1, 2}
          NTasks = 3
          NOps = 3
          MaxW = 4
          Mayfail = FALSE
          Hold = {1}
          Flaw = "none"
INVARIANTS Counters Once Ordered DeadSound QuietOK
PROPERTIES InOrder Limited WaitSound
CHECK_DEADLOCK FALSE
