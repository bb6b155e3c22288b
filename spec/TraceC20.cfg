INIT TInit
NEXT TNext
CONSTANTS
  StInit <- Init20
  StNext <- SameState
  Fails <- Verdict
