INIT TInit
NEXT TNext
CONSTANTS
  StInit <- Init15
  StNext <- After15
  Fails <- Verdict
