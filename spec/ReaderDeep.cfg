SPECIFICATION Spec
CONSTANTS
  Limit = 10000
  BigIndex = 67000
  Deep = TRUE
  Src <- SrcX
  Tab <- TabX
  Dst <- DstX
  Old <- OldX
  Canon <- CanonX
INVARIANTS CursorInText DepthIsNesting DepthBounded NeverStuck Sound Complete AllBytes Printed
CHECK_DEADLOCK FALSE
