INIT TInit
NEXT TNext
CONSTANTS
  StInit <- Empty
  StNext <- After
  Fails <- Verdict
