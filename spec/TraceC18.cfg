INIT TInit
NEXT TNext
CONSTANTS
  StInit <- Init18
  StNext <- SameState
  Fails <- Verdict18
