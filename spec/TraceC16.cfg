INIT TInit
NEXT TNext
CONSTANTS
  StInit <- Init16
  StNext <- SameState
  Fails <- Verdict16
