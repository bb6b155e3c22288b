SPECIFICATION Spec
INVARIANTS Agrees2 Declared
CONSTRAINT Emit
