INIT TInit
NEXT TNext
CONSTANTS
  StInit <- Facts
  StNext <- SameState
  Fails <- Verdict
