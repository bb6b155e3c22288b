INIT TInit
NEXT TNext
CONSTANTS
  StInit <- Init17
  StNext <- SameState
  Fails <- Verdict17
