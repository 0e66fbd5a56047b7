SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  MaxCalls = 3
  MaxNest = 2
  Kinds = {"e1", "d1", "e3"}
INVARIANTS Exclusive PoolIsClean Outcomes Printed
CHECK_DEADLOCK FALSE
