SPECIFICATION Spec
CONSTANT Layout = "A"
INVARIANTS CyclicIffRejected GuardBounds EndsSomehow Printed
CHECK_DEADLOCK FALSE
