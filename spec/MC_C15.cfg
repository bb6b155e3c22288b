SPECIFICATION Spec15
CONSTANT Eager = FALSE
INVARIANTS Meaning Again NothingNew
CONSTRAINT Emit15
CHECK_DEADLOCK FALSE
