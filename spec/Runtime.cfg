SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  MaxCalls = 2
  MaxNest = 1
  Kinds = {"e0", "e1", "e2", "e3", "ex", "d0", "d1", "d2", "d3", "dx"}
INVARIANTS Exclusive PoolIsClean Outcomes Printed
CHECK_DEADLOCK FALSE
