SPECIFICATION Spec
CONSTANTS
  Limit = 10000
  MaxOps = 4
  Targets = {2, 5000, 9999, 10000, 10001}
  SibCounts = {1, 12000}
  Roots = {"N", "S", "M", "T", "any", "um"}
INVARIANTS DepthIsOpenLevels Printed
CHECK_DEADLOCK FALSE
