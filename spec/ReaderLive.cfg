SPECIFICATION Spec
CONSTANTS
  Limit = 10000
  BigIndex = 67000
  Deep = FALSE
  Src <- SrcX
  Tab <- TabX
  Dst <- DstX
  Old <- OldX
  Canon <- CanonX
PROPERTY Termination
INVARIANTS CursorInText DepthIsNesting DepthBounded NeverStuck Sound Complete AllBytes
CHECK_DEADLOCK FALSE
