SPECIFICATION Spec
CONSTANTS
  N = 3
  Refs = {"d", "p"}
  Pairs = {}
  Forms = {"S", "L", "M", "P"}
INVARIANTS Consistent CacheUsable Printed
CHECK_DEADLOCK FALSE
