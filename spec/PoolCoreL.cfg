SPECIFICATION FairSpec
CONSTANTS Sizes = {1, 2}
          Resizers = {1, 2}
          Limits = {1, 2}
          NTasks = 2
          NOps = 1
          MaxW = 3
          Mayfail = FALSE
          Hold = {}
          Flaw = "none"
PROPERTIES TasksEnd WaitEnds DestroyEnds Settles
CHECK_DEADLOCK FALSE
