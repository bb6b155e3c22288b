SPECIFICATION Spec
CONSTANT Steps = 3
INVARIANTS AtMostOnce AsHooked Answers
CONSTRAINT Emit
