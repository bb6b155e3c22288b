SPECIFICATION Spec
CONSTANT Steps = 2
INVARIANT Right
CONSTRAINT Emit
