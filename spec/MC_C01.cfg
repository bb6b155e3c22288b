SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Aligned = TRUE
INVARIANT Exact
CONSTRAINT Emit
