SPECIFICATION Spec
CONSTANT Rebuild = FALSE
INVARIANT Upgraded
INVARIANT Sound
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
