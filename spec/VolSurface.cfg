SPECIFICATION Spec
CONSTANT MaxOps = 2
INVARIANTS Forgets MovesOn Emit
CHECK_DEADLOCK FALSE
