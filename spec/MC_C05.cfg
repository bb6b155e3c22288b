SPECIFICATION Spec
INVARIANT Right
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
