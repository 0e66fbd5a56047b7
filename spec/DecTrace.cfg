SPECIFICATION Spec
CONSTANTS
  Limit = 10000
  BigIndex = 67000
  Src <- SrcX
  Tab <- TabX
  Dst <- DstX
  Old <- OldX
  Canon <- CanonX
INVARIANTS CursorInText DepthIsNesting DepthBounded Judged
CHECK_DEADLOCK FALSE
