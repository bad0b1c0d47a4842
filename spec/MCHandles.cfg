SPECIFICATION Spec
CONSTANTS K = 3
          MaxObj = 3
INVARIANTS KeptWhileReferenced ReturnedWhenUnreferenced Exclusive Counted UserNeverReturned
CHECK_DEADLOCK FALSE
