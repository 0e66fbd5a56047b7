SPECIFICATION Spec
CONSTANT Layout = "C"
INVARIANTS CyclicIffRejected GuardBounds EndsSomehow Printed
CHECK_DEADLOCK FALSE
