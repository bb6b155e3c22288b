SPECIFICATION Spec
CONSTANT Shortest = FALSE
INVARIANTS Right There
CHECK_DEADLOCK FALSE
