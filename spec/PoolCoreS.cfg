SPECIFICATION Spec
CONSTANTS Sizes = {1, 2, 3}
          Resizers = {0, 1, 2, 3}
          Limits = {0, 1, 2, 3}
          NTasks = 4
          NOps = 4
          MaxW = 8
          Mayfail = FALSE
          Hold = {1}
          Flaw = "none"
CHECK_DEADLOCK FALSE
