SPECIFICATION Spec
CONSTANT Slots = 3
INVARIANTS AsPlaced Once
CONSTRAINT Emit
