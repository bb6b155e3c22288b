INIT TInit
NEXT TNext
CONSTANTS
  StInit <- None05
  StNext <- SameState
  Fails <- Verdict
