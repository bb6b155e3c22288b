SPECIFICATION Spec
CONSTANT Slots = 2
INVARIANTS AsPlaced Once
CONSTRAINT Emit
