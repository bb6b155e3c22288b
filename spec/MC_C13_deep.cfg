SPECIFICATION Spec
CONSTANT Steps = 4
INVARIANTS Right Latest NoOther
CONSTRAINT Emit
