SPECIFICATION Spec
INVARIANT Declarative
CONSTRAINT Emit
