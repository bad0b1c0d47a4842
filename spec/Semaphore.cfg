CONSTANTS
 Waiters = {"w1","w2"}
 Posters = {"p1","p2"}
 Initial = 0
 WaitsEach = 2
 PostsEach = 2
 Spurious = TRUE
SPECIFICATION Spec
INVARIANTS NeverMore Account NoLost
PROPERTIES AllReturn
CHECK_DEADLOCK FALSE
