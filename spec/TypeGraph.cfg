SPECIFICATION Spec
CONSTANTS
  N = 2
  Refs = {"d", "p", "l", "i", "x", "a", "h"}
  Pairs = {"d", "p", "i", "x", "h"}
  Forms = {"S", "L", "M", "A", "P", "K", "I"}
INVARIANTS Consistent CacheUsable Printed
CHECK_DEADLOCK FALSE
