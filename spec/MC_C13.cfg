SPECIFICATION Spec
CONSTANT Steps = 3
INVARIANTS Right Latest NoOther
CONSTRAINT Emit
