SPECIFICATION Spec
CONSTANT Layout = "B"
INVARIANTS CyclicIffRejected GuardBounds EndsSomehow Printed
CHECK_DEADLOCK FALSE
