SPECIFICATION Spec
CONSTANTS
  Tab <- TabX
  Val <- ValX
  Empty <- Zero0
  Fits <- FitsX
  Emit <- EmitX
INVARIANTS OutputInRange Judged
CHECK_DEADLOCK FALSE
