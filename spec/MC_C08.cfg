SPECIFICATION Spec
INVARIANTS Declarative 
CONSTRAINT Emit
