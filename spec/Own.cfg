SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  MaxRes = 2
  MaxOut = 2
INVARIANTS Printed
PROPERTIES Frame
CHECK_DEADLOCK FALSE
