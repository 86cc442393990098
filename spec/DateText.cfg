SPECIFICATION Spec
CONSTANT MaxComps = 4
INVARIANTS Sane Emit
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
