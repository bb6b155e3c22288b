INIT TInit
NEXT TNext
CONSTANTS
  StInit <- Nothing
  StNext <- After
  Fails <- Verdict
