SPECIFICATION Spec
INVARIANT Sound
INVARIANT NotStuck
INVARIANT Reached
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
