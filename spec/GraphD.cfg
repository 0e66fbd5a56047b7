SPECIFICATION Spec
CONSTANT Layout = "D"
INVARIANTS CyclicIffRejected GuardBounds EndsSomehow Printed
CHECK_DEADLOCK FALSE
