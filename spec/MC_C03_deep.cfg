SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS Right Sound Short Declared
CONSTRAINT Emit
