SPECIFICATION Spec
CONSTANT Most = 2
INVARIANTS Complete Refused Good
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
