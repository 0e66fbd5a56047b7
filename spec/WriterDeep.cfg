SPECIFICATION Spec
CONSTANTS
  Deep = TRUE
  Tab <- TabX
  Val <- ValX
  Empty <- EmptyX
  Fits <- FitsX
  Emit <- EmitX
INVARIANTS NeverStuck Grammatical NothingOnError RoundTrip Printed
CHECK_DEADLOCK FALSE
