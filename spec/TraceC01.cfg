INIT TInit
NEXT TNext
CONSTANTS
  StInit <- NoState
  StNext <- SameState
  Fails <- Verdict
