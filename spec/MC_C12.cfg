SPECIFICATION Spec
CONSTANT Steps = 3
INVARIANTS NothingLeaks Refused
CONSTRAINT Emit
