SPECIFICATION Spec
CONSTANTS
  Tags = {"a", "ba", "x"}
  Ids = {"x", "ax", "a"}
  MaxOps = 3
  Sep = "!##!"
INVARIANTS FullKey Sound OrderFree
CONSTRAINT Emit
