SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  MaxCalls = 3
  MaxNest = 2
  Kinds = {"e0", "e1", "e2", "e3", "d1", "d2", "d3", "dx"}
INVARIANTS Exclusive PoolIsClean Outcomes Printed
CHECK_DEADLOCK FALSE
