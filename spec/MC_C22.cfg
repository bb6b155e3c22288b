SPECIFICATION Spec
INVARIANTS DayNumbers Inverse NoneOther
CONSTRAINT Emit
