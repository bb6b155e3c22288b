SPECIFICATION Spec
CONSTANTS
  Steps = 4
  Customs = 3
INVARIANTS MapRight ComposeRight
CONSTRAINT Emit
