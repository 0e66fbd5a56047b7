SPECIFICATION Spec
CONSTANTS
  Deep = FALSE
  Tab <- TabX
  Val <- ValX
  Empty <- EmptyX
  Fits <- FitsX
  Emit <- EmitX
INVARIANTS NeverStuck Grammatical NothingOnError RoundTrip Printed
CHECK_DEADLOCK FALSE
