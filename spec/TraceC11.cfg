INIT TInit
NEXT TNext
CONSTANTS
  StInit <- Start1
  StNext <- After
  Fails <- Verdict
