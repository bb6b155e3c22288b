SPECIFICATION Spec
CONSTANT Eager = FALSE
INVARIANTS ItemsRight OpsRight
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
