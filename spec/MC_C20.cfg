SPECIFICATION Spec
INVARIANTS Once LeadsBack All
CONSTRAINT Emit
