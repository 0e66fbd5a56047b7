SPECIFICATION Spec
CONSTANT Layout = "F"
INVARIANTS CyclicIffRejected GuardBounds EndsSomehow Printed
CHECK_DEADLOCK FALSE
