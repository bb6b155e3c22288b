SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS Right Sound Short Declared
PROPERTY Ends
CONSTRAINT Emit
