SPECIFICATION Spec
INVARIANTS Declarative RoundTrip
CONSTRAINT Emit
