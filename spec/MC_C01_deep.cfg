SPECIFICATION Spec
CONSTANTS
  MaxLen = 20
  Aligned = TRUE
INVARIANT Exact
VIEW KeptView
