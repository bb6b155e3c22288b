INIT TInit
NEXT TNext
CONSTANTS
  StInit <- Fresh
  StNext <- After
  Fails <- Verdict
