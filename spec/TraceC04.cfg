INIT TInit
NEXT TNext
CONSTANTS
  StInit <- Init04
  StNext <- SameState
  Fails <- Verdict
