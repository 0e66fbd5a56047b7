SPECIFICATION Spec
CONSTANT Layout = "E"
INVARIANTS CyclicIffRejected GuardBounds EndsSomehow Printed
CHECK_DEADLOCK FALSE
