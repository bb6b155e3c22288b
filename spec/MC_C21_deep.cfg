SPECIFICATION Spec
CONSTANT Steps = 3
INVARIANT Right
CONSTRAINT Emit
