SPECIFICATION Spec
CONSTANTS
  Steps = 3
  Customs = 2
INVARIANTS MapRight ComposeRight
CONSTRAINT Emit
